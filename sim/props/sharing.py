"""C01-C04: parser objects shared by threads, crashed parses, user exceptions,
re-entrant callbacks."""

from .. import world
from .common import (Outcome, Prop, Runner, budgeted, clean, describe, gcase,
                     icase, jround, overlaps, parse_op, same, sched, settled,
                     styles, with_length)


STORM = 3_000_000


def fleet(rng, ng=None, ni=None, counts=(0, 0, 1, 1, 2, 3), cap=60, **kw):
    """Grammars, parsers built from them, inputs for them."""
    ng = ng or rng.choice([1, 1, 1, 2, 2, 3])
    if rng.random() < 0.12:
        kw["focus"] = "layout"
    cases = [gcase(rng, **kw) for _ in range(ng)]
    builds, inputs, pairs = [], [], []
    for k, c in enumerate(cases):
        ins = []
        for _ in range(ni or rng.choice([1, 2, 2, 3])):
            ins.append(len(inputs))
            inputs.append(icase(rng, c, counts, cap))
        for _ in range(rng.choice([1, 1, 1, 2])):
            st = styles(rng)
            for i in ins:
                pairs.append((len(builds), i))
            builds.append({"g": k, "style": st})
    # user-equality items only make sense for plain sequences
    for b in builds:
        if b["style"] & 4:
            kinds = {inputs[i]["kind"] for q, i in pairs
                     if builds[q] is b}
            if kinds != {"seq"}:
                b["style"] &= 19
    return {"grammars": [c["g"] for c in cases], "builds": builds,
            "inputs": inputs,
            "names": [c["name"] for c in cases]}, pairs


def cb_fault(rng):
    f = {"at": "cb", "frac": rng.random(),
         "exc": rng.choice(world.CALLBACK_EXCS)}
    if rng.random() < 0.7:
        # any kind of callback equally often, however rarely it is called
        f["kfrac"] = rng.random()
        # now and then its first or last call
        if rng.random() < 0.25:
            f["frac"] = rng.choice([0.0, 0.999999, 0.999999])
    return f


def fault_spec(rng, soft=False):
    r = rng.random()
    if r < 0.55:
        return cb_fault(rng)
    if r < 0.9 or soft:
        return {"at": "irq", "frac": rng.random(),
                "exc": rng.choice(world.IRQ_EXCS)}
    return {"at": "stack", "frac": rng.random()}


def resolve(op, base):
    """Turns relative fault positions into absolute ones."""
    out = dict(op)
    fs = []
    for f in op.get("faults", ()):
        f = dict(f)
        fr = f.pop("frac", None)
        if fr is not None:
            if f["at"] == "cb":
                if not base["cbs"]:
                    continue
                ks = sorted(base["kinds"])
                kf = f.pop("kfrac", None)
                if kf is None:
                    f["n"] = 1 + int(fr * base["cbs"])
                else:
                    f["kind"] = ks[int(kf * len(ks))]
                    f["n"] = 1 + int(fr * base["kinds"][f["kind"]])
            elif f["at"] == "irq":
                f["n"] = 1 + int(fr * max(1, base["steps"]))
            else:
                # depth of stack left, biased to shallow failures
                f["n"] = int(fr * fr * 120)
        fs.append(f)
    if fs:
        out["faults"] = fs
    else:
        out.pop("faults", None)
    ns = []
    for x in op.get("nest", ()):
        x = dict(x)
        fr = x.pop("frac", None)
        if fr is not None:
            if not base["cbs"]:
                continue
            x["n"] = 1 + int(fr * base["cbs"])
        ns.append(x)
    if ns:
        out["nest"] = ns
    else:
        out.pop("nest", None)
    return out


class Shared(Prop):
    """Runs the plan, compares every unharmed operation with its baseline."""

    def resolve_all(self, plan, run, out):
        steps = 0
        tasks = []
        for ops in plan["tasks"]:
            new = []
            for op in ops:
                b = run.baseline(plan, op)
                if "fatal" in b:
                    # alone, without faults, it does not end: not this
                    # property's business
                    out.skipped = "baseline does not end"
                    return None
                op = self.resolve_op(plan, run, op, b, out)
                if op is None:
                    return None
                w = self.weight(plan, run, op)
                if op.get("rep", 1) * w > STORM:
                    # thousands of long parses take too much time
                    op = dict(op, rep=max(1, STORM // w))
                steps += w * op.get("rep", 1)
                new.append(op)
            tasks.append(new)
        return with_length(dict(plan, tasks=tasks, budget=max(
            20_000_000, 4 * steps)), steps)

    def resolve_op(self, plan, run, op, b, out):
        op = resolve(op, b)
        if "nest" in op:
            ns = []
            for x in op["nest"]:
                c = run.baseline(plan, x["op"])
                if "fatal" in c:
                    out.skipped = "baseline does not end"
                    return None
                sub = self.resolve_op(plan, run, x["op"], c, out)
                if sub is None:
                    return None
                ns.append(dict(x, op=sub))
            op["nest"] = ns
        return op

    def weight(self, plan, run, op):
        """Steps of an operation and those nested in it."""
        return run.baseline(plan, op)["steps"] + sum(
            self.weight(plan, run, x["op"]) for x in op.get("nest", ()))

    def judge(self, plan, call):
        out = Outcome()
        run = Runner(call)
        plan = self.resolve_all(plan, run, out)
        if plan is None:
            return out
        r = run.execute(plan)
        out.take(plan, r)
        out.add(execs=run.execs)
        if budgeted(out, r):
            return out
        self.check(plan, run, r, out)
        return out

    def check(self, plan, run, r, out):
        raise NotImplementedError

    def expect_same(self, plan, run, op, got, out, code, logs=True):
        b = run.baseline(plan, op)
        if not same(got, b):
            out.bad(code, "%s: got %.500r, alone %.500r" % (
                describe(plan, op), got["res"], b["res"]))
            return False
        if logs and got["log"] != b["log"]:
            out.bad(code + "-actions",
                    "%s: actions %.400r, alone %.400r" % (
                        describe(plan, op), got["log"], b["log"]))
            return False
        return True


class C01(Shared):
    id = "C01"
    quick = 4000
    thorough = 120000
    rule = ("one run = 2-5 caller threads doing 1-4 parses each on shared "
            "parser objects under one seeded schedule; non-trivial when at "
            "least one preemption landed inside library code and two "
            "operations of different threads overlapped; distinct by hash "
            "of (workload, recorded switch list)")

    def make(self, rng, tier):
        if rng.random() < 0.3:
            return self.contend(rng)
        plan, pairs = fleet(rng)
        nt = rng.choice([2, 2, 2, 3, 3, 4, 5])
        tasks = []
        same_pair = rng.random() < 0.3 and rng.choice(pairs)
        for _ in range(nt):
            ops = []
            for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
                b, i = same_pair or rng.choice(pairs)
                ops.append(parse_op(rng, b, i, plan["inputs"][i]["kind"]))
            tasks.append(ops)
        plan["tasks"] = tasks
        plan["policy"] = sched(rng, nt)
        return jround(plan)

    def contend(self, rng):
        """Threads that all recover with one small parser, each on its own
        long and badly damaged input."""
        c = gcase(rng, lib=0.25, depth=rng.choice([0, 1, 2, 2]),
                  repairable=rng.random() < 0.7)
        nt = rng.choice([2, 2, 2, 3])
        inputs, tasks = [], []
        rec = rng.random() < 0.8
        for k in range(nt):
            ops = []
            for _ in range(rng.choice([1, 1, 2])):
                i = icase(rng, c, (1, 2, 3, 4, 6), 50,
                          limit=rng.choice([10, 30, 60]))
                ops.append(parse_op(rng, 0, len(inputs), i["kind"],
                                    rec=rec or rng.random() < 0.5))
                inputs.append(i)
            tasks.append(ops)
        pol = sched(rng, nt)
        while pol["kind"] not in ("race", "hot", "uniform"):
            pol = sched(rng, nt)
        return jround({
            "grammars": [c["g"]], "builds": [{"g": 0, "style": rng.choice(
                [0, 0, 1, 2])}], "inputs": inputs, "names": [c["name"]],
            "tasks": tasks, "policy": pol})

    def check(self, plan, run, r, out):
        out.add(ops=sum(map(len, r["ops"].values())))
        ov = overlaps(r["ops"])
        out.add(overlapping_pairs=ov)
        out.nontrivial = ov > 0 and r["stats"]["preemptions"] > 0
        for k, ops in enumerate(plan["tasks"]):
            for op, got in zip(ops, r["ops"][k]):
                self.expect_same(plan, run, op, got, out, "interference")
        out.sample = {"threads": len(plan["tasks"]),
                      "schedule": plan["policy"],
                      "switches": r["policy"]["decisions"][:8],
                      "results": [str(o["res"])[:120]
                                  for o in r["ops"][0][:2]]}


class C02(Shared):
    id = "C02"
    quick = 3000
    thorough = 90000
    level = "exploration"
    rule = ("one run = 1-3 threads; crashed parses (exception from any "
            "callback, interrupt or failed allocation at any library "
            "instruction, stack exhausted at any depth; sometimes thousands "
            "in a row) followed by probe parses on the same parser objects; "
            "non-trivial when at least one fault fired and a probe ran "
            "afterwards; distinct by hash of (workload, switch list)")

    def make(self, rng, tier):
        plan, pairs = fleet(rng, cap=40)
        nt = rng.choice([1, 1, 2, 2, 3])
        storm = rng.random() < 0.15
        tasks = []
        if storm:
            nt = 1
        for _ in range(nt):
            ops = []
            n = rng.choice([1, 2, 3, 5, 8])
            for _ in range(rng.choice([1, 2, 2]) if storm else n):
                b, i = rng.choice(pairs)
                op = parse_op(rng, b, i, plan["inputs"][i]["kind"])
                op["faults"] = [fault_spec(rng, nt > 1)]
                if storm:
                    op["faults"] = [cb_fault(rng) if rng.random() < 0.6
                                    else fault_spec(rng)]
                    op["rep"] = rng.choice([150, 400, 1200, 1200, 3000])
                ops.append(op)
                if not storm and rng.random() < 0.4:
                    b, i = rng.choice([p for p in pairs if p[0] == b])
                    ops.append(parse_op(rng, b, i,
                                        plan["inputs"][i]["kind"]))
            for _ in range(rng.choice([1, 2, 3])):
                b, i = rng.choice(pairs)
                ops.append(parse_op(rng, b, i, plan["inputs"][i]["kind"]))
            tasks.append(ops)
        if nt > 1:
            for ops in tasks:
                for op in ops:
                    op["faults"] = [f for f in op.get("faults", ())
                                    if f["at"] != "stack"]
        plan["tasks"] = tasks
        plan["policy"] = sched(rng, nt)
        return jround(plan)

    def check(self, plan, run, r, out):
        fired = probes = 0
        settled(out, r)
        for k, ops in enumerate(plan["tasks"]):
            for op, got in zip(ops, r["ops"][k]):
                hit = got["fired"] or got["irq"] or got["stack"]
                if hit:
                    fired += op.get("rep", 1)
                    continue
                if fired:
                    probes += 1
                self.expect_same(plan, run, op, got, out, "damaged-parser",
                                 logs=not op.get("faults"))
        out.add(crashes=fired, probes=probes)
        out.nontrivial = fired > 0 and probes > 0
        out.sample = {"faults": [op["faults"] for op in plan["tasks"][0]
                                 if op.get("faults")][:3],
                      "crashes": fired, "probes": probes}


class C03(Shared):
    id = "C03"
    quick = 2500
    thorough = 90000
    level = "exploration"
    rule = ("one run = one or two threads repeating a parse (parse and "
            "unwrap) with one exception injected at a chosen user callback, "
            "stream read or interrupt point of each repetition; non-trivial "
            "when an injected exception was raised; distinct by hash of "
            "(workload, fault positions, switch list)")

    def make(self, rng, tier):
        plan, pairs = fleet(rng, ng=rng.choice([1, 1, 2]), cap=30)
        nt = rng.choice([1, 1, 1, 2])
        tasks = []
        for _ in range(nt):
            ops = []
            for _ in range(rng.choice([3, 6, 10])):
                b, i = rng.choice(pairs)
                op = parse_op(rng, b, i, plan["inputs"][i]["kind"],
                              own=True)
                if rng.random() < 0.6:
                    op["cl"] = True
                if plan["inputs"][i]["kind"] in ("seq", "tok") and \
                        rng.random() < 0.5:
                    op["lazy"] = {}
                if rng.random() < 0.85:
                    op["faults"] = [cb_fault(rng)]
                else:
                    op["faults"] = [{"at": "irq", "frac": rng.random(),
                                     "exc": rng.choice(world.IRQ_EXCS)}]
                ops.append(op)
            tasks.append(ops)
        plan["tasks"] = tasks
        plan["policy"] = sched(rng, nt)
        return jround(plan)

    def check(self, plan, run, r, out):
        n = 0
        for k, ops in enumerate(plan["tasks"]):
            for op, got in zip(ops, r["ops"][k]):
                hit = got["fired"] or got["irq"]
                if not hit:
                    self.expect_same(plan, run, op, got, out, "unharmed",
                                     logs=False)
                    continue
                n += 1
                f = op["faults"][0]
                if got["res"][0] != "fault":
                    out.bad("swallowed", "%s: %s raised at %r, the caller "
                            "saw %.500r" % (describe(plan, op), f["exc"],
                                            got["fired"], got["res"]))
                elif got["after"]:
                    out.bad("ran-on", "%s: after %s at %r the library still "
                            "called %r" % (describe(plan, op), f["exc"],
                                           got["fired"], got["after"][:5]))
        out.add(injected=n)
        out.nontrivial = n > 0
        out.sample = {"faults": [op.get("faults")
                                 for op in plan["tasks"][0]][:4],
                      "injected": n}


class C04(Shared):
    id = "C04"
    quick = 2500
    thorough = 90000
    rule = ("one run = 1-3 threads whose callbacks (predicates, equality, "
            "actions, location functions, stream reads) start further "
            "parses, up to three levels deep, on the same or other parsers "
            "and inputs; non-trivial when a nested parse ran; distinct by "
            "hash of (workload, switch list)")

    def make(self, rng, tier):
        plan, pairs = fleet(rng, ng=rng.choice([1, 1, 2]), cap=30)
        nt = rng.choice([1, 1, 2, 3])

        tags = [0]

        def op(level):
            b, i = rng.choice(pairs)
            tags[0] += 1
            o = parse_op(rng, b, i, plan["inputs"][i]["kind"], tag=tags[0])
            if rng.random() < 0.4:
                o["cl"] = True
            if plan["inputs"][i]["kind"] in ("seq", "tok") and \
                    rng.random() < 0.3:
                o["lazy"] = {}
            if level and rng.random() < 0.9:
                o["nest"] = [{"frac": rng.random(), "op": op(
                    level - 1 if rng.random() < 0.5 else 0)}
                    for _ in range(rng.choice([1, 1, 2, 3]))]
            return o
        plan["tasks"] = [[op(rng.choice([1, 2, 3]))
                          for _ in range(rng.choice([1, 2, 3]))]
                         for _ in range(nt)]
        plan["policy"] = sched(rng, nt)
        return jround(plan)

    def check(self, plan, run, r, out):
        for k, ops in enumerate(plan["tasks"]):
            for op, got in zip(ops, r["ops"][k]):
                self.expect_same(plan, run, op, got, out, "outer-disturbed")
        todo = {}

        def collect(op):
            for x in op.get("nest", ()):
                todo[x["op"]["tag"]] = x["op"]
                collect(x["op"])
        for ops in plan["tasks"]:
            for op in ops:
                collect(op)
        out.add(nested=len(r["nested"]))
        out.nontrivial = len(r["nested"]) > 0
        for t, n, kind, got in r["nested"]:
            self.expect_same(plan, run, todo[got["tag"]], got, out,
                             "nested-disturbed")
        out.sample = {"nested": len(r["nested"]),
                      "inside": sorted({x[2] for x in r["nested"]})}


class C17(Shared):
    id = "C17"
    quick = 4000
    thorough = 90000
    rule = ("one run = one grammar built twice in different spellings "
            "(operators and methods, functions, tuples from pairs, shared "
            "or repeated parts), the same damaged inputs, insertion limits "
            "and injected exceptions given to both by 1-3 interleaved "
            "sessions; results, reports, repairs, actions and the place "
            "where the exception hit must agree; non-trivial when the "
            "spellings differ and a parse reported an error or was aborted; "
            "distinct by hash of (workload, switch list)")

    def make(self, rng, tier):
        plan, pairs = fleet(rng, ng=1, ni=rng.choice([2, 3, 4]), cap=40)
        st = plan["builds"][0]["style"]
        other = rng.choice([1, 1, 8, 9, 9, 2, 3, 10, 11])
        plan["builds"] = [dict(plan["builds"][0]),
                          dict(plan["builds"][0], style=st ^ other)]
        nt = rng.choice([1, 1, 2, 3])
        tasks = [[] for _ in range(nt)]
        tag = 0
        for i in range(len(plan["inputs"])):
            for _ in range(rng.choice([1, 2, 3])):
                op = parse_op(rng, 0, i, plan["inputs"][i]["kind"])
                if rng.random() < 0.5:
                    op["faults"] = [cb_fault(rng)]
                tag += 1
                for b in (0, 1):
                    tasks[rng.randrange(nt)].append(dict(op, b=b, tag=tag))
        plan["tasks"] = [t for t in tasks if t]
        plan["policy"] = sched(rng, len(plan["tasks"]))
        return jround(plan)

    def resolve_op(self, plan, run, op, b, out):
        # faults are placed by the first spelling
        return super().resolve_op(
            plan, run, op, run.baseline(plan, dict(op, b=0)), out)

    def check(self, plan, run, r, out):
        seen, reported = {}, False
        for k, ops in enumerate(plan["tasks"]):
            for op, got in zip(ops, r["ops"][k]):
                res = got["res"]
                if got["fired"] or res[0] in ("exc", "fault") or \
                        res[0][0] == "perr":
                    reported = True
                seen.setdefault(op["tag"], {})[op["b"]] = op, got
        for both in seen.values():
            if len(both) < 2:
                continue
            (op, x), (_, y) = both[0], both[1]
            out.add(pairs=1)
            for what in ("res", "log", "fired"):
                if x[what] != y[what]:
                    out.bad("spelling-" + what, "%s: %s %.500r in style %d, "
                            "%.500r in style %d" % (
                                describe(plan, op), what, x[what],
                                plan["builds"][0]["style"], y[what],
                                plan["builds"][1]["style"]))
                    break
        out.nontrivial = reported
        out.sample = {"styles": [b["style"] for b in plan["builds"]],
                      "results": [str(o["res"])[:120]
                                  for o in r["ops"][0][:2]]}


_ = clean
