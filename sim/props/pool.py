"""C06: forward declarations; C13: composing parsers while others parse."""

import itertools
import json

from .. import gen, lang
from .common import (ALONE, SERIAL, Outcome, Prop, Runner, bounded, budgeted,
                     clean, describe, gcase, icase, jround, overlaps, parse_op, sched,
                     shrink_inputs, shrink_policy, shrink_tasks, with_length)

POOL = "sim.worlds.execute_pool"


class PoolRunner(Runner):
    def __init__(self, call):
        super().__init__(call, POOL)

    def alone(self, plan, ops, prelude=()):
        """Result of the last of some operations, alone in a process."""
        ops = [clean(o) for o in ops]
        p = {"grammars": [], "builds": [], "delays": plan.get("delays", []),
             "inputs": plan["inputs"], "prelude": list(prelude),
             "tasks": [ops], "policy": SERIAL, "budget": ALONE}
        if ops and "i" in ops[-1]:
            # only the input in question matters
            p["inputs"] = [plan["inputs"][ops[-1]["i"]]]
            p["tasks"] = [ops[:-1] + [dict(ops[-1], i=0)]]
        key = json.dumps([p["tasks"], p["prelude"], p["inputs"]])
        r = self.base.get(key)
        if r is None:
            x = self.execute(p)
            r = {"fatal": x["fatal"]} if x["fatal"] else x["ops"][0][-1]
            self.base[key] = r
        return r


def refs_of(n):
    return {x[1] for x in walk(n) if x[0] == "ref"}


def walk(n):
    """All nodes, including pool-only ones."""
    yield n
    for x in n[1:]:
        if isinstance(x, list):
            if x and isinstance(x[0], str) and not (
                    n[0] in ("re",) or x and all(
                        isinstance(y, str) for y in x) and n[0] == "re"):
                yield from walk(x)
            else:
                for y in x:
                    if isinstance(y, list) and y and \
                            isinstance(y[0], str):
                        yield from walk(y)


def subst(n, env):
    """Replaces ["pool", i] by the nodes they were built from."""
    if n[0] == "pool":
        return env[str(n[1])]
    if n[0] == "ext":
        t = subst(n[1], env)
        return ["then", t[1] + [subst(n[2], env)]]
    if n[0] == "extapply":
        t = subst(n[2], env)
        return ["apply", n[1], t[1]]
    if n[0] in lang.TERMINALS:
        return n
    ks = lang.kids(n)
    return lang.with_kids(n, [subst(c, env) for c in ks]) if ks else n


# --------------------------------------------------------------------------

class C06(Prop):
    id = "C06"
    entry = POOL
    quick = 4000
    thorough = 120000
    rule = ("one run = 1-3 forward declarations, 1-4 threads that define "
            "them (properly, with unusable definitions, twice, interrupted "
            "at any instruction), compose parsers from them and parse with "
            "them; every outcome must fit a history in which each "
            "declaration changes state once; non-trivial when a parse ran "
            "before or during a definition and another after; distinct by "
            "hash of (workload, switch list)")

    def make(self, rng, tier):
        for _ in range(200):
            gc = gcase(rng, lib=0.5, depth=rng.choice([2, 3]))
            g = gc["g"]
            if 1 <= len(g["rules"]) <= 2 and lang.size(g) < 50:
                break
        else:
            gc = {"g": gen.LIB["expr"][0](), "fam": "text", "name": "expr"}
            g = gc["g"]
        rules = sorted(g["rules"])
        inputs = [icase(rng, gc, (0, 0, 1, 2), 25)
                  for _ in range(rng.choice([1, 2, 3]))]
        kinds = {i["kind"] for i in inputs}
        delays = list(rules)
        bodies = {r: g["rules"][r] for r in rules}
        if rng.random() < 0.3:
            # a declaration defined as another declaration
            bodies["alias"] = ["ref", rng.choice(rules)]
            delays.append("alias")
        items = [g["start"]]
        for d in delays:
            items += [["ref", d], ["maybe", ["ref", d]],
                      ["seql", ["ref", d], ["eof"]],
                      ["recover", ["attempt", ["ref", d]]],
                      ["label", "lbl", ["ref", d]],
                      ["fmap", "c", ["ref", d]]]
        prelude = [{"out": "p0", "node": g["start"],
                    "style": rng.choice([0, 1])}]
        for k in range(rng.choice([0, 1, 2])):
            prelude.append({"out": "p%d" % (k + 1), "node": rng.choice(items),
                            "style": rng.choice([0, 1])})
        nt = rng.choice([1, 2, 2, 3, 3, 4])
        tasks = [[] for _ in range(nt)]
        nd = [0]

        def define(d):
            nd[0] += 1
            r = rng.random()
            op = {"k": "define", "d": d, "how": "good", "id": nd[0],
                  "node": ["fmap", "D%d" % nd[0], bodies[d]],
                  "style": rng.choice([0, 1])}
            if r < 0.15:
                op.update(how="none")
            elif r < 0.30:
                op.update(how="bad", exc=rng.choice(
                    ["ValueError", "AttributeError", "KeyboardInterrupt",
                     "RuntimeError", "MemoryError"]))
            elif r < 0.42:
                op["faults"] = [{"at": "irq", "back": rng.random(),
                                 "exc": rng.choice(["KeyboardInterrupt",
                                                    "MemoryError"])}]
            if d == "alias" and rng.random() < 0.5:
                op["node"] = bodies[d]
            return op
        for d in delays:
            for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
                tasks[rng.randrange(nt)].append(define(d))
        for t, ops in enumerate(tasks):
            rng.shuffle(ops)
            for q in range(rng.choice([1, 2, 3, 4])):
                i = rng.randrange(len(inputs))
                at = rng.randrange(len(ops) + 1)
                op = parse_op(rng, 0, i, inputs[i]["kind"])
                del op["b"]
                op.pop("own", None)
                if rng.random() < 0.35:
                    op["d"] = rng.choice(delays)
                elif rng.random() < 0.5:
                    op["p"] = rng.choice(prelude)["out"]
                else:
                    c = {"k": "compose", "out": "t%d.%d" % (t, q),
                         "node": rng.choice(items),
                         "style": rng.choice([0, 1])}
                    ops.insert(at, c)
                    at = rng.randrange(at + 1, len(ops) + 1)
                    op["p"] = c["out"]
                ops.insert(at, op)
        if kinds == {"seq"} and rng.random() < 0.3:
            for ops in tasks:
                for op in ops:
                    if op["k"] == "parse":
                        op["lazy"] = {}
        return jround({"grammars": [], "builds": [], "delays": delays,
                       "rules": bodies, "inputs": inputs, "prelude": prelude,
                       "tasks": tasks, "policy": sched(rng, nt)})

    def judge(self, plan, call):
        out = Outcome()
        run = PoolRunner(call)
        tasks = []
        for ops in plan["tasks"]:
            new = []
            for op in ops:
                fs = []
                for f in op.get("faults", ()):
                    f = dict(f)
                    if "back" in f:
                        # mostly in the last instructions: the definition
                        # itself, not the composition of its parser
                        b = run.alone(plan, [op])
                        n = b.get("steps", 100)
                        x = f.pop("back")
                        f["n"] = max(1, n - int(x * 40) if x < 0.8
                                     else int(n * (x - 0.8) * 5))
                    fs.append(f)
                new.append(dict(op, faults=fs) if fs else op)
            tasks.append(new)
        plan, r = bounded(out, run, with_length(dict(plan, tasks=tasks),
                                                1200))
        if plan is None:
            return out
        out.take(plan, r)
        if budgeted(out, r):
            return out
        H = History(self, plan, run, r, out)
        H.judge()
        out.add(execs=run.execs, overlapping_pairs=overlaps(r["ops"]))
        return out

    def shrink(self, plan):
        yield from shrink_tasks(plan)
        yield from shrink_policy(plan)
        yield from shrink_inputs(plan)
        pre = plan["prelude"]
        for k in range(len(pre)):
            yield dict(plan, prelude=pre[:k] + pre[k + 1:])


class History:
    """Is there a history in which every declaration changes state once?"""

    def __init__(self, prop, plan, run, r, out):
        self.plan, self.run, self.out = plan, run, out
        self.nodes = {p["out"]: p["node"] for p in plan["prelude"]}
        self.defs = {d: [] for d in plan["delays"]}
        self.parses = []
        for k, ops in enumerate(plan["tasks"]):
            for op, got in zip(ops, r["ops"][k]):
                if op["k"] == "define":
                    self.defs[op["d"]].append((op, got))
                elif op["k"] == "compose":
                    self.nodes[op["out"]] = op["node"]
                    if got["res"] != ("ok",):
                        out.bad("compose", "composing %r failed: %r" % (
                            op["node"], got["res"]))
                else:
                    self.parses.append((op, got))
        self.parses.sort(key=lambda x: x[1]["t0"])
        self.by_id = {op["id"]: op for ds in self.defs.values()
                      for op, _ in ds}
        self.give_up = set()

    def judge(self):
        out = self.out
        self.cand = {}
        for d, ds in self.defs.items():
            ds.sort(key=lambda x: x[1]["t0"])
            self.cand[d] = self.candidates(d, ds)
        early = late = False
        self.known = {}
        self.quiet = {}
        for op, got in self.parses:
            if got["res"] == ("missing",):
                continue
            node = ["ref", op["d"]] if "d" in op else \
                self.nodes.get(op["p"])
            if node is None:
                continue
            ds = self.reach(node)
            if ds & self.give_up:
                out.add(undecided=1)
                continue
            e, l_ = self.parse(op, got, node, sorted(ds))
            early, late = early or e, late or l_
        out.add(parses=len(self.parses), defines=sum(
            map(len, self.defs.values())))
        out.nontrivial = early and late
        out.sample = {"defines": [
            (op["d"], op["how"], str(got["res"])[:60], got["t0"], got["t1"])
            for ds in self.defs.values() for op, got in ds][:6],
            "parses": [(str(g["res"])[:60], g["t0"], g["t1"])
                       for _, g in self.parses][:4]}

    def reach(self, node):
        seen, todo = set(), sorted(refs_of(node))
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += sorted(refs_of(self.plan["rules"][x]))
        return seen

    def candidates(self, d, ds):
        """Definitions that may have taken effect: list of
        (id, t0, t1, sure)."""
        out = self.out
        cs = []
        for op, got in ds:
            res = got["res"]
            if res == ("ok",):
                if op["how"] != "good":
                    # an unusable definition was accepted: nothing is
                    # promised about the declaration any more
                    self.give_up.add(d)
                    return []
                cs.append((op["id"], got["t0"], got["t1"], True))
            elif res[0] == "fault" or got["irq"]:
                cs.append((op["id"], got["t0"], got["t1"], False))
        for op, got in ds:
            res = got["res"]
            if op["how"] != "good" or res == ("ok",) or res[0] == "fault":
                continue
            before = [c for c in cs if c[1] < got["t1"] and
                      c[0] != op["id"]]
            if res[:2] != ("exc", "RuntimeError"):
                out.bad("define-error", "defining %s raised %r" % (d, res))
            elif not before:
                out.bad("stuck", "defining %s was refused (%r) although no "
                        "definition had succeeded" % (d, res))
        oks = [c for c in cs if c[3]]
        for a, b in itertools.combinations(oks, 2):
            if a[2] < b[1] or b[2] < a[1]:
                out.bad("defined-twice", "two definitions of %s succeeded "
                        "one after the other" % d)
        # an attempt that was over before another one succeeded had no
        # effect, or that one would have been refused
        cs = [c for c in cs if c[3] or not any(
            c[2] < o[1] for o in oks)]
        # refusals prove that something had taken effect by then
        self.refused = getattr(self, "refused", {})
        self.refused[d] = min([got["t1"] for op, got in ds
                               if op["how"] == "good" and
                               got["res"][:2] == ("exc", "RuntimeError")],
                              default=None)
        return cs

    def states(self, d, p0, p1):
        """What a parse running from p0 to p1 may see; None: anything."""
        cs = self.cand[d]
        if d in self.known:
            return [self.known[d]]
        vis = [c for c in cs if c[1] < p1]
        if len(vis) > 1 and p0 < max(c[2] for c in vis):
            return None         # several definitions in progress
        sure = any(c[3] and c[2] < p0 for c in cs) or (
            self.refused[d] is not None and self.refused[d] < p0)
        return ([] if sure and vis else [0]) + [c[0] for c in vis]

    def parse(self, op, got, node, ds):
        out = self.out
        p0, p1 = got["t0"], got["t1"]
        opts = []
        for d in ds:
            s = self.states(d, p0, p1)
            if s is None:
                out.add(undecided=1)
                return True, False
            opts.append(s)
        early = any(0 in s for s in opts)
        n = 1
        for s in opts:
            n *= len(s)
        if n > 24:
            out.add(undecided=1)
            return early, False
        fit = []
        seen = []
        for vec in itertools.product(*opts):
            b = self.base(op, node, dict(zip(ds, vec)))
            if "fatal" in b:
                out.add(undecided=1)
                return early, False
            seen.append((vec, b["res"]))
            if b["res"] == got["res"]:
                fit.append(vec)
        if ds_raced(ds, self.cand):
            # what was composed during the race, the bodies of the
            # definitions included, may have bound either of them: only a
            # fall back to "undefined" is wrong
            undef = ("exc", "RuntimeError")
            if not early and got["res"][:2] == undef and not any(
                    r[:2] == undef for _, r in seen):
                out.bad("state", "%s %r: undefined again: %.300r" % (
                    describe(self.plan, op), node, got["res"]))
            elif not fit:
                out.add(undecided=1)
            return early, not early
        what = "%s %r, definitions seen %r" % (
            describe(self.plan, op), node, dict(zip(ds, opts)))
        if not fit:
            out.bad("state", "%s: got %.400r, possible are %.600r" % (
                what, got["res"], seen))
            return early, not early
        if node[0] == "ref" and opts[ds.index(node[1])] == [0] and \
                got["res"][:2] != ("exc", "RuntimeError"):
            out.bad("undefined", "%s: gave %.300r although undefined" % (
                what, got["res"]))
        # settled from now on
        quiet = all(c[2] < p0 or c[1] > p1 for d in ds
                    for c in self.cand[d])
        for j, d in enumerate(ds):
            s = {v[j] for v in fit}
            if len(s) == 1 and 0 not in s and quiet and len(opts[j]) > 1:
                self.known[d] = s.pop()
        if quiet:
            self.agree(d_key(ds, self.cand, p0), ds, fit, what)
        return early, not early

    def agree(self, key, ds, fit, what):
        """Parses of one quiet period see the same state."""
        old = self.quiet.get(key)
        new = set(fit) if old is None else old & set(fit)
        if not new:
            self.out.bad("flapping", "%s: no single state explains this and "
                         "the parses before it" % what)
        self.quiet[key] = new

    def base(self, op, node, state):
        """The parse alone, the declarations being in a given state."""
        defs = []
        for d, i in sorted(state.items()):
            if i:
                defs.append(clean(self.by_id[i]))
        p = {k: v for k, v in op.items() if k not in ("d", "lazy")}
        comp = []
        if node[0] == "ref":
            p.pop("p", None)
            p["d"] = node[1]
        else:
            comp = [{"k": "compose", "out": "x", "node": node}]
            p["p"] = "x"
        b = self.run.alone(self.plan, defs + comp + [p])
        if "fatal" not in b and (not all(state.values()) or
                                 not op.get("rec")):
            self.model(op, node, state, b)
        return b

    def model(self, op, node, state, b):
        """A defined declaration means its definition, one that is not is
        refused as soon as a parse, recovering or not, gets to it."""
        from .. import build
        from ..world import fix_locs
        d = self.plan["inputs"][op["i"]]
        inp = build.make_input(d["kind"], d["items"],
                               fix_locs(d.get("locs")))
        g = {"rules": {r: self.by_id[i]["node"] if i else ["unexp", "?"]
                       for r, i in state.items()}, "start": node}
        if not lang.wellformed(g):
            return
        for r, i in state.items():
            if not i:
                g["rules"][r] = ["undef"]
        try:
            m = lang.Plain(g, inp).run()
        except lang.ModelBudget:
            return
        if m[0] in ("empty", "undefined"):
            ok = b["res"][:2] == ("exc", "RuntimeError")
        elif op.get("rec"):
            ok = True
        elif m[0] == "ok":
            ok = b["res"] == (("val", m[1]),)
        else:
            ok = b["res"][0][0] == "perr"
        if not ok:
            self.out.bad("meaning", "%s %r, definitions %r: got %.300r, the "
                         "definition means %.300r" % (
                             describe(self.plan, op), node, state, b["res"],
                             m))


def ds_raced(ds, cand):
    """Were there definitions of one of these that raced each other?"""
    return any(a[2] >= b[1] and b[2] >= a[1] for d in ds
               for a, b in itertools.combinations(cand[d], 2))


def d_key(ds, cand, p0):
    return (tuple(ds), tuple(sum(c[1] < p0 for c in cand[d]) for d in ds))


# --------------------------------------------------------------------------

FLAT = ["fmap", "bind", "seql", "seqr", "seq", "alt", "maybe", "many",
        "attempt", "label", "recover", "recw", "recf", "sepby", "between",
        "chainl", "chainr", "then", "apply", "purefn", "pure"]


class C13(Prop):
    id = "C13"
    entry = POOL
    quick = 3000
    thorough = 90000
    rule = ("one run = a pool of parsers built beforehand, 1-3 threads that "
            "compose further parsers from pool members with every "
            "combinator (some compositions interrupted or given an "
            "unusable part) and parse with old and new members; every parse "
            "is compared with the same parser built alone in a pristine "
            "process; non-trivial when a member was parsed with after "
            "another had been composed from it; distinct by hash of "
            "(workload, switch list)")

    def make(self, rng, tier):
        fam = rng.choice(["chars", "text", "tok"])
        rep = rng.random() < 0.5
        lay = fam != "chars" and rng.random() < 0.5
        skin = gen.make_skin(rng) if fam == "chars" and \
            rng.random() < 0.4 else None
        uid = [0]

        def fresh():
            feats = [f for f in FLAT if rng.random() < 0.7]
            g = gen.grammar(rng, fam, layout=lay, repairable=rep, eof=False,
                            depth=rng.choice([0, 1, 1, 2]), recursive=False,
                            feats=feats, wild=0)
            return gen.put_skin(g["start"], skin) if skin else g["start"]
        def leaf():
            g = gen.grammar(rng, fam, layout=False, repairable=rep, eof=False,
                            depth=0, recursive=False, feats=["label"],
                            wild=0)
            return gen.put_skin(g["start"], skin) if skin else g["start"]
        nodes = {}
        prelude = []
        for k in range(rng.choice([2, 3, 4])):
            nodes["p%d" % k] = fresh()
            prelude.append({"out": "p%d" % k, "node": nodes["p%d" % k],
                            "style": rng.choice([0, 1])})
        if rng.random() < 0.4:
            # the simplest ones
            nodes["u"] = rng.choice([
                ["unexp", "nothing"], ["unexp", "nothing"],
                ["pure", "P"], ["purefn", "u"], ["eof"], leaf()])
            prelude.append({"out": "u", "node": nodes["u"],
                            "style": rng.choice([0, 1])})
        if rng.random() < 0.5:
            # near copies: nothing may be shared that they do not share
            for k in range(rng.choice([1, 1, 2])):
                nodes["q%d" % k] = gen.twin(rng, nodes["p%d" % k])
                prelude.append({"out": "q%d" % k, "node": nodes["q%d" % k],
                                "style": rng.choice([0, 1])})
        base = sorted(nodes)
        nt = rng.choice([1, 1, 2, 2, 3])
        tasks = []
        for t in range(nt):
            ops, mine, made = [], list(base), []
            for q in range(rng.choice([2, 4, 6, 9])):
                if rng.random() < 0.55:
                    c = self.combine(rng, mine, nodes, uid, lay, t, q, leaf,
                                     made)
                    if c is None:
                        continue
                    ops.append(c)
                    if "node" in c and "bad" not in c:
                        mine.append(c["out"])
                else:
                    ops.append(("parse", rng.choice(mine)))
            for _ in range(rng.choice([1, 2, 3])):
                ops.append(("parse", rng.choice(mine)))
            tasks.append(ops)
        inputs = []
        for _ in range(rng.choice([2, 3, 4])):
            start = nodes[rng.choice(sorted(nodes))]
            g = {"rules": {}, "start": start}
            inputs.append(icase(rng, {
                "g": g, "fam": "obj" if skin else fam, "name": None},
                (0, 0, 1, 1, 2), 25))
        for ops in tasks:
            for j, op in enumerate(ops):
                if isinstance(op, tuple):
                    i = rng.randrange(len(inputs))
                    new = parse_op(rng, 0, i, inputs[i]["kind"], p=op[1])
                    del new["b"]
                    new.pop("own", None)
                    if new.get("mi", 5) > 5:
                        new["mi"] = 3
                    ops[j] = new
        return jround({"grammars": [], "builds": [], "inputs": inputs,
                       "prelude": prelude, "tasks": tasks,
                       "policy": sched(rng, nt)})

    def combine(self, rng, mine, nodes, uid, lay, t, q, leaf, made):
        for _ in range(20):
            uid[0] += 1
            u = "c%d" % uid[0]
            used = []

            def p():
                # some parts are built on the spot, and dropped afterwards
                used.append(leaf() if rng.random() < 0.25 else
                            ["pool", rng.choice(mine)])
                return used[-1]
            k = rng.choice(FLAT + ["ext", "ext", "extapply", "layout"])
            if k in ("purefn", "pure"):
                continue
            if made and rng.random() < 0.25:
                # an earlier composition again, but for one part
                n, old = rng.choice(made)
                parts = json.dumps(n).rsplit(json.dumps(old), 1)
                new = leaf() if rng.random() < 0.6 else p()
                n = json.loads(json.dumps(new).join(parts))
                if any(x[1] not in mine for x in walk(n)
                       if x[0] == "pool"):
                    continue
                used.append(new)
            elif k == "fmap":
                n = [k, u, p()]
            elif k == "bind":
                n = [k, u, p(), [p() for _ in range(rng.choice([1, 2, 3]))]]
            elif k in ("seq", "seql", "seqr", "alt", "sepby"):
                n = [k, p(), p()]
            elif k in ("maybe", "many", "attempt", "recover"):
                n = [k, p()]
            elif k == "label":
                n = [k, "lab" + u, p()]
            elif k in ("recw", "recf"):
                n = [k, "rv" + u, rng.choice([None, "ins" + u]), p()]
            elif k == "between":
                n = [k, p(), p(), p()]
            elif k in ("chainl", "chainr"):
                n = [k, u, p(), p()]
            elif k == "then":
                n = [k, [p() for _ in range(rng.choice([2, 2, 3, 4]))]]
            elif k == "apply":
                n = [k, u, [p() for _ in range(rng.choice([2, 3]))]]
            elif k in ("ext", "extapply"):
                ts = [m for m in mine if nodes[m][0] == "then" and
                      (k == "extapply" or len(nodes[m][1]) < 8)]
                if not ts:
                    continue
                x = ["pool", rng.choice(ts)]
                n = ["ext", x, p()] if k == "ext" else ["extapply", u, x]
            else:
                if not lay:
                    continue
                j = rng.choice(["block", "aligned", "indented"])
                n = [j, rng.choice([0, 1, 2]), p()] if j == "indented" \
                    else [j, p()]
            also = []
            if used:
                made.append((n, used[-1]))
                if rng.random() < 0.35:
                    # variants are built first and thrown away
                    parts = json.dumps(n).rsplit(json.dumps(used[-1]), 1)
                    last = leaf()
                    also = []
                    for _ in range(rng.choice([2, 3, 6, 12])):
                        also.append(json.loads(json.dumps(last).join(parts)))
                        last = gen.twin(rng, last) if rng.random() < 0.7 \
                            else leaf()
                    if rng.random() < 0.7:
                        n = also.pop()
                        made.pop()
            full = subst(n, nodes)
            g = {"rules": {}, "start": full}
            if lang.size(g) > 70 or not lang.wellformed(g):
                continue
            op = {"k": "compose", "out": "t%d.%d" % (t, q), "node": n,
                  "style": rng.choice([0, 1])}
            if also:
                op["also"] = also
            r = rng.random()
            if r < 0.1:
                # an operand that cannot be used
                m = json.loads(json.dumps(n).replace(
                    json.dumps(p()), '["badop"]', 1))
                if m != n:
                    op["node"], op["bad"] = m, True
                    return op
            if r < 0.25:
                op["faults"] = [{"at": "irq", "n": rng.randrange(1, 80),
                                 "exc": rng.choice(["KeyboardInterrupt",
                                                    "MemoryError"])}]
            nodes[op["out"]] = full
            return op
        return None

    def judge(self, plan, call):
        out = Outcome()
        run = PoolRunner(call)
        nodes = {p["out"]: subst(p["node"], {}) for p in plan["prelude"]}
        for ops in plan["tasks"]:
            for op in ops:
                if op["k"] == "compose" and not op.get("bad"):
                    try:
                        nodes[op["out"]] = subst(op["node"], nodes)
                    except KeyError:
                        pass
        for ops in plan["tasks"]:
            for op in ops:
                if op["k"] == "parse" and op["p"] in nodes and \
                        "fatal" in self.base(run, plan, op, nodes):
                    out.skipped = "baseline does not end"
                    return out
        r = run.execute(with_length(plan, 1200))
        out.take(plan, r)
        if budgeted(out, r):
            return out
        used = set()
        for k, ops in enumerate(plan["tasks"]):
            seen = set()
            for op, got in zip(ops, r["ops"][k]):
                if op["k"] == "compose":
                    if got["irq"] or got["res"][0] == "fault":
                        out.add(interrupted_compositions=1)
                    elif op.get("bad"):
                        out.add(failed_compositions=1)
                    elif got["res"] not in (("ok",), ("missing",)):
                        out.bad("compose", "composing %r: %r" % (
                            op["node"], got["res"]))
                    else:
                        out.add(compositions=1)
                        for x in walk(op["node"]):
                            if x[0] == "pool":
                                seen.add(x[1])
                    continue
                if got["res"] == ("missing",) or op["p"] not in nodes:
                    continue
                if op["p"] in seen:
                    used.add(op["p"])
                b = self.base(run, plan, op, nodes)
                out.add(parses=1)
                if got["res"] != b["res"]:
                    out.bad("changed", "%s (%s = %.400r): got %.400r, built "
                            "alone %.400r" % (
                                describe(plan, op), op["p"], nodes[op["p"]],
                                got["res"], b["res"]))
                elif got["log"] != b["log"]:
                    out.bad("changed-actions", "%s (%s = %.400r): actions "
                            "%.300r, built alone %.300r" % (
                                describe(plan, op), op["p"],
                                nodes[op["p"]], got["log"], b["log"]))
                elif not op.get("rec"):
                    self.model(plan, op, nodes[op["p"]], got, out)
        out.add(execs=run.execs, overlapping_pairs=overlaps(r["ops"]))
        out.nontrivial = bool(used)
        out.sample = {"ops": [o["k"] + ":" + (
            o["node"][0] if "node" in o else o["p"])
            for o in plan["tasks"][0]][:10]}
        return out

    def base(self, run, plan, op, nodes):
        return run.alone(plan, [dict(op, p="x")],
                         [{"out": "x", "node": nodes[op["p"]]}])

    def model(self, plan, op, node, got, out):
        from .. import build
        from ..world import fix_locs
        d = plan["inputs"][op["i"]]
        inp = build.make_input(d["kind"], d["items"],
                               fix_locs(d.get("locs")))
        try:
            m = lang.Plain({"rules": {}, "start": node}, inp).run()
        except lang.ModelBudget:
            return
        res = got["res"]
        ok = res == (("val", m[1]),) if m[0] == "ok" else \
            res[0][0] == "perr" if m[0] == "err" else True
        if not ok:
            out.bad("meaning", "%s %.400r: got %.300r, it means %.300r" % (
                describe(plan, op), node, res, m))

    def shrink(self, plan):
        yield from shrink_tasks(plan)
        yield from shrink_policy(plan)
        yield from shrink_inputs(plan)
        pre = plan["prelude"]
        for k in range(len(pre)):
            yield dict(plan, prelude=pre[:k] + pre[k + 1:])
