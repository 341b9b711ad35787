"""C14: the same parse in different processes and after different pasts."""

from ..core import random_clock
from .common import (SERIAL, Outcome, Prop, Runner, budgeted, describe,
                     jround, parse_op, settled)
from .lazy import SPECS, random_spec
from .sharing import cb_fault, fault_spec, fleet, resolve

HIST = "sim.worlds.execute_history"
PEERS = (11, 1222)


class C14(Prop):
    id = "C14"
    entry = HIST
    quick = 3000
    thorough = 90000
    rule = ("one run = the same 2-6 parses replicated in a pristine process, "
            "in processes with other hash seeds and frequent garbage "
            "collection, in a process with another build order, and after a "
            "history of up to thousands of other parses, failures, aborted "
            "parses, discarded parsers and freed inputs; values, reports, "
            "repairs and actions must be identical; non-trivial when a "
            "history ran and a parse needed an error report; distinct by "
            "hash of the workload")

    def wear(self, rng):
        """One parser does the same few things very often, then others."""
        plan, pairs = fleet(rng, ng=1, ni=rng.choice([3, 4, 6]),
                            counts=(0, 0, 1, 2), cap=20,
                            lib=0.15, depth=rng.choice([1, 2, 3]))

        def op(i, **kw):
            o = parse_op(rng, 0, i, plan["inputs"][i]["kind"], own=True,
                         **kw)
            o.pop("cl", None)
            return o
        mine = sorted({i for b, i in pairs if b == 0})
        hist = [op(rng.choice(mine), rec=rng.random() < 0.3,
                   rep=rng.choice([60, 150, 400, 1000]))
                for _ in range(rng.choice([1, 1, 2, 3]))]
        tail = [op(i) for i in mine]
        plan.update(history=hist, tail=tail, gc=[60, 5, 5], peers=[])
        return jround(plan)

    def make(self, rng, tier):
        if rng.random() < 0.15:
            return self.wear(rng)
        plan, pairs = fleet(rng, ng=rng.choice([1, 1, 2, 3]),
                            counts=(0, 1, 1, 2, 3), cap=30)

        def op(**kw):
            b, i = rng.choice(pairs)
            o = parse_op(rng, b, i, plan["inputs"][i]["kind"], **kw)
            o["own"] = rng.random() < 0.8
            return o
        tail = [op() for _ in range(rng.choice([2, 3, 6]))]
        hist = []
        for _ in range(rng.choice([2, 5, 10, 20])):
            r = rng.random()
            if r < 0.35:
                o = op()
            elif r < 0.55:
                o = op()
                o["faults"] = [fault_spec(rng)]
            elif r < 0.75:
                # a relative of a parse to come: same parser, other input
                o = dict(rng.choice(tail), own=True)
                bi = [p for p in pairs if p[0] == o["b"]]
                o["i"] = rng.choice(bi)[1]
            elif r < 0.93:
                o = op(k="junk")
            else:
                o = {"k": "gc"}
            if rng.random() < 0.1 and o["k"] == "parse" and \
                    "faults" not in o:
                o["rep"] = rng.choice([10, 40, 150])
            hist.append(o)
        if rng.random() < 0.04:
            hist.append(op(rep=rng.choice([600, 1100, 2100])))
        plan.update(history=hist, tail=tail, gc=rng.choice(
            [[1, 1, 1], [7, 3, 2], [60, 5, 5]]), peers=list(PEERS),
            entropy=rng.randrange(1 << 30),
            clock=random_clock(rng) if rng.random() < 0.5 else {})
        return jround(plan)

    def judge(self, plan, call):
        out = Outcome()
        run = Runner(call)
        for op in plan["tail"]:
            if "fatal" in run.baseline(plan, op):
                out.skipped = "baseline does not end"
                return out
        hist = []
        for op in plan["history"]:
            if op["k"] == "parse":
                b = run.baseline(plan, op)
                if "fatal" in b:
                    out.skipped = "baseline does not end"
                    return out
                if op.get("rep") and b["steps"] * op["rep"] > 3_000_000:
                    op = dict(op, rep=max(1, 3_000_000 // b["steps"]))
                op = resolve(op, b)
            hist.append(op)
        core = {k: plan[k] for k in ("grammars", "builds", "inputs")}
        tail = plan["tail"]
        want = [run.baseline(plan, op) for op in tail]

        def compare(name, r):
            out.take(dict(core, tasks=[tail]), r)
            if budgeted(out, r, name):
                return
            settled(out, r)
            for op, got, b in zip(tail, r["ops"][0][-len(tail):], want):
                for what in ("res", "log"):
                    if got[what] != b[what]:
                        out.bad("replica-" + name, "%s: %s: %.500r, in a "
                                "pristine process %.500r" % (
                                    describe(plan, op), name, got[what],
                                    b[what]))
                        break

        def go(p, **kw):
            run.execs += 1
            r = call(self.entry, p, **kw)
            run.steps += r["stats"]["steps"]
            return r
        env = {"policy": dict(SERIAL, **plan.get("clock", {})),
               "seed": plan.get("entropy", 0)}
        for hs in plan["peers"]:
            compare("other hash seed, clock and entropy", go(
                dict(core, tasks=[tail], gc=plan["gc"], **env),
                hashseed=hs))
        compare("other order", go(dict(
            core, tasks=[tail], policy=SERIAL, warm=True)))
        r = go(dict(core, tasks=[hist + tail], gc=plan["gc"],
                    budget=60_000_000, **env))
        compare("after a history", r)
        out.replay = plan
        reps = sum(o.get("rep", 1) for o in hist)
        out.add(execs=run.execs, history_ops=reps,
                replicas=2 + len(plan["peers"]))
        out.nontrivial = bool(hist) and any(
            b["res"][0][0] == "perr" for b in want)
        out.sample = {"history": [o["k"] for o in hist][:10],
                      "repeats": reps, "tail": len(tail)}
        return out

    def shrink(self, plan):
        from .common import chunks, drop_range, shrink_grammars, \
            shrink_inputs
        for name in ("tail", "history"):
            xs = plan[name]
            for a, b in chunks(len(xs)):
                if name == "history" or b - a < len(xs):
                    yield dict(plan, **{name: drop_range(xs, a, b)})
        yield from shrink_inputs(plan)
        yield from shrink_grammars(plan)
        for k in range(len(plan["peers"])):
            yield dict(plan, peers=drop_range(plan["peers"], k, k + 1))


class C18(Prop):
    id = "C18"
    entry = "sim.worlds.execute_service"
    quick = 700
    thorough = 20000
    rule = ("one run = a process that serves thousands of parses, aborted "
            "parses and throw-away parsers in a loop, requests never quite "
            "the same; the memory blocks in use are counted at five "
            "moments, and may not keep growing with the number of requests; "
            "non-trivial when at least 2000 requests were served; distinct "
            "by hash of the workload")

    def make(self, rng, tier):
        plan, pairs = fleet(rng, ng=rng.choice([1, 1, 2]), ni=rng.choice(
            [1, 2, 3]), counts=(0, 0, 1, 2), cap=12, depth=rng.choice(
                [0, 1, 2, None]), lib=0.25)
        ops = []
        # threads that serve a request or two and end
        threads = rng.random() < 0.3
        for _ in range(rng.choice([1, 1, 2, 4])):
            b, i = rng.choice(pairs)
            o = parse_op(rng, b, i, plan["inputs"][i]["kind"], own=True)
            o.pop("mi", None)
            r = rng.random()
            if r < 0.3:
                o["uniq"] = True
                o.pop("cl", None)
                if rng.random() < 0.5:
                    # with the limit set, the locations are not the library's
                    o["mi"] = rng.choice([0, 1, 2])
            elif r < 0.75:
                # no interrupts: CPython itself keeps a block or two for an
                # exception raised from a monitoring callback
                o["faults"] = [cb_fault(rng) if rng.random() < 0.85 else
                               {"at": "stack", "frac": rng.random()}]
            elif r < 0.82:
                rx, ex = rng.choice(SPECS) if rng.random() < 0.5 else \
                    random_spec(rng)
                o = {"k": "lex", "spec": rx, "uniq": rng.random() < 0.7,
                     "text": "".join(rng.choice(ex) for _ in range(
                         rng.choice([1, 3, 8])))}
                if rng.random() < 0.3:
                    o["part"] = rng.choice([1, 2, 4])
            elif r < 0.93:
                o["k"] = "junk"
                o.pop("cl", None)
                if rng.random() < 0.5:
                    o["uniq"] = True
                    o["mi"] = 1
                if rng.random() < 0.6:
                    o["fresh"] = True
                    o["mi"] = 1
            else:
                o = {"k": "decl", "b": b, "how": rng.choice(
                    ["alone", "seq", "alt", "many"]),
                    "bad": rng.choice([[], ["none"], ["int", "none"]]),
                    "use": rng.random() < 0.5, "good": rng.random() < 0.4,
                    "rec": rng.random() < 0.5}
            if threads and rng.random() < 0.5:
                o["thread"] = True
            ops.append(o)
        plan["serve"] = ops
        plan["n"] = rng.choice([500, 700, 1000])
        return jround(plan)

    def judge(self, plan, call):
        out = Outcome()
        run = Runner(call)
        ops, steps = [], 0
        for op in plan["serve"]:
            b = run.execute(dict(
                {k: plan[k] for k in ("grammars", "builds", "inputs")},
                tasks=[[{k: v for k, v in op.items() if k != "faults"}]],
                policy=SERIAL, budget=200_000), self.entry)
            if b["fatal"]:
                out.skipped = "one request takes too long"
                return out
            b = b["ops"][0][0]
            steps += b["steps"]
            ops.append(resolve(op, b))
        n = min(plan["n"], 1_200_000 * len(ops) // max(1, steps))
        if n < 400:
            out.skipped = "one request takes too long"
            return out
        r = run.execute(dict(
            {k: plan[k] for k in ("grammars", "builds", "inputs")},
            tasks=[[{"k": "serve", "ops": ops, "n": n}]], policy=SERIAL,
            budget=100_000_000), self.entry)
        out.take(dict(plan, tasks=[]), r)
        out.replay = plan
        if budgeted(out, r):
            return out
        if r["ops"][0][0]["res"][0] != "served":
            out.bad("serving", "%r" % (r["ops"][0][0]["res"],))
            return out
        settled(out, r)
        bl = r["extra"]["blocks"]
        out.add(execs=run.execs, requests=5 * n)
        out.nontrivial = True
        # the interpreter's own free lists settle within a few phases
        grow = min(bl[2] - bl[1], bl[3] - bl[2], bl[4] - bl[3])
        if grow >= max(0.2 * n, 160):
            out.bad("growth", "%r: after each %d further requests %r blocks "
                    "are in use" % (ops, n, bl))
        out.states.append(max(-9, min(99, int(grow) // 10)))
        out.sample = {"requests": 5 * n, "kinds": [o["k"] for o in ops],
                      "blocks": bl}
        return out

    def shrink(self, plan):
        from .common import drop_range, shrink_grammars, shrink_inputs
        xs = plan["serve"]
        for k in range(len(xs)):
            if len(xs) > 1:
                yield dict(plan, serve=drop_range(xs, k, k + 1))
        yield from shrink_inputs(plan)
        yield from shrink_grammars(plan)
