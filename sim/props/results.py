"""C05: a result is settled once parse() has returned."""

from .. import world, worlds
from .common import (Outcome, Prop, Runner, budgeted, describe, jround,
                     overlaps, parse_op, sched, with_length)
from .sharing import fleet

MANGLE = ("clear", "expected", "fields", "extend")


class C05(Prop):
    id = "C05"
    entry = "sim.worlds.execute_results"
    quick = 4000
    thorough = 120000
    rule = ("one run = 1-4 results kept from parses of sound and damaged "
            "inputs, then 1-3 threads that read, map, re-map them, abort "
            "reads and maps with injected exceptions and interrupts, spoil "
            "the reports and inputs they were given, send reports to other "
            "processes (pickle, copy), parse again and collect garbage; every completed read is compared with the same parse "
            "read once in a pristine process; non-trivial when one result "
            "was read at least twice; distinct by hash of (workload, switch "
            "list)")

    def make(self, rng, tier):
        plan, pairs = fleet(rng, ng=rng.choice([1, 1, 2]), ni=2,
                            counts=(0, 1, 1, 2, 3), cap=30)
        pre, chains = [], {}
        for k in range(rng.choice([1, 1, 2, 3, 4])):
            b, i = rng.choice(pairs)
            op = parse_op(rng, b, i, plan["inputs"][i]["kind"], own=True,
                          keep="h%d" % k)
            op["rec"] = rng.random() < 0.75
            op["cl"] = rng.random() < 0.6
            pre.append(op)
            chains["h%d" % k] = []
        nt = rng.choice([1, 1, 2, 2, 3])
        tasks, maps = [], 0
        for t in range(nt):
            ops = []
            mine = list(chains)
            for _ in range(rng.choice([3, 5, 8, 12])):
                r = rng.random()
                h = rng.choice(mine)
                if r < 0.55:
                    op = {"k": "read", "h": h, "rec": rng.random() < 0.4}
                    if rng.random() < 0.3:
                        op["mangle"] = rng.choice(MANGLE)
                    if rng.random() < 0.3:
                        op["ship"] = rng.choice(worlds.SHIP)
                elif r < 0.75:
                    maps += 1
                    op = {"k": "map", "h": h, "f": "m%d" % maps,
                          "to": "x%d" % maps}
                    mine.append("x%d" % maps)
                elif r < 0.80:
                    op = {"k": "mangle_input", "h": rng.choice(
                        sorted(chains))}
                elif r < 0.84:
                    op = {"k": "gc"}
                else:
                    b, i = rng.choice(pairs)
                    op = parse_op(rng, b, i, plan["inputs"][i]["kind"],
                                  own=True)
                if op["k"] in ("read", "map", "parse") and \
                        rng.random() < 0.2:
                    if rng.random() < 0.6:
                        op["faults"] = [{
                            "at": "cb", "n": rng.choice([1, 1, 2, 3]),
                            "exc": rng.choice(world.CALLBACK_EXCS)}]
                    else:
                        op["faults"] = [{
                            "at": "irq", "n": rng.randrange(1, 120),
                            "exc": rng.choice(world.IRQ_EXCS)}]
                ops.append(op)
            tasks.append(ops)
        plan.update(prelude=pre, tasks=tasks, policy=sched(rng, nt))
        return jround(plan)

    def judge(self, plan, call):
        out = Outcome()
        run = Runner(call)
        base = {}
        p0 = {k: v for k, v in plan.items() if k != "prelude"}
        for op in plan["prelude"]:
            b = run.baseline(p0, op)
            if "fatal" in b:
                out.skipped = "baseline does not end"
                return out
            base[op["keep"]] = (b["res"], [], op)
        for ops in plan["tasks"]:
            for op in ops:
                if op["k"] == "parse" and \
                        "fatal" in run.baseline(p0, op):
                    out.skipped = "baseline does not end"
                    return out
                if op["k"] == "map" and op["h"] in base:
                    r, fs, src = base[op["h"]]
                    base[op["to"]] = (r, fs + [op["f"]], src)
        r = run.execute(with_length(plan, 1500), self.entry)
        out.take(plan, r)
        if budgeted(out, r):
            return out
        reads, count, seen = {}, 0, {}
        for k, ops in enumerate(plan["tasks"]):
            for op, got in zip(ops, r["ops"][k]):
                res = got["res"]
                if got["fired"] or got["irq"] or res == ("missing",):
                    out.add(aborted=1 if res != ("missing",) else 0)
                    continue
                if op["k"] == "parse":
                    b = run.baseline(p0, op)
                    if res != b["res"]:
                        out.bad("parse", "%s: got %.400r, alone %.400r" % (
                            describe(plan, op), res, b["res"]))
                elif op["k"] == "map":
                    if res != ("mapped",):
                        out.bad("map", "mapping failed: %.300r" % (res,))
                elif op["k"] == "read":
                    if op["h"] not in base:
                        continue
                    count += 1
                    reads[op["h"]] = reads.get(op["h"], 0) + 1
                    b, fs, src = base[op["h"]]
                    want = b[1] if op.get("rec") and len(b) > 1 else b[0]
                    if want[0] == "val":
                        v = want[1]
                        for f in fs:
                            v = ("T", "m" + f, v)
                        want = ("val", v)
                    have, calls = res, []
                    if res[0] == "val":
                        v = res[1]
                        for f in reversed(fs):
                            if not (isinstance(v, tuple) and len(v) == 4
                                    and v[1] == "m" + f):
                                break
                            calls.append(v[2])
                            v = v[3]
                        for f in fs[len(fs) - len(calls):]:
                            v = ("T", "m" + f, v)
                        have = ("val", v)
                        if seen.setdefault(op["h"], calls) != calls:
                            out.bad("remapped", "reading %s (%s) mapped by "
                                    "%r gave what calls %r of the functions "
                                    "returned, before %r" % (
                                        op["h"], describe(plan, src), fs,
                                        calls, seen[op["h"]]))
                    if have != want:
                        out.bad("read", "reading %s (%s) mapped by %r, "
                                "recover=%r: got %.500r, expected %.500r" % (
                                    op["h"], describe(plan, src), fs,
                                    bool(op.get("rec")), res, want))
        out.add(reads=count, execs=run.execs, overlapping_pairs=overlaps(
            r["ops"]))
        out.nontrivial = any(v > 1 for v in reads.values())
        out.sample = {"reads": reads, "ops": [
            o["k"] for o in plan["tasks"][0]][:8]}
        return out

    def shrink(self, plan):
        for c in super().shrink(plan):
            yield c
        pre = plan["prelude"]
        for k in range(len(pre)):
            if len(pre) > 1:
                yield dict(plan, prelude=pre[:k] + pre[k + 1:])
