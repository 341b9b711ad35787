"""Shared by all property checks: workload generation, baselines, judging."""

import copy
import hashlib
import json
import random

from .. import core, gen, lang
from ..client import RunError

SERIAL = {"kind": "serial", "seed": 0}
# steps an operation may take alone; heavier ones (recovery that tries very
# many repairs) are left out, so that exhausting a whole run's budget, more
# than ten times as large, means that something does not end
ALONE = 1_500_000


def jround(x):
    return json.loads(json.dumps(x))


def h(x):
    return hashlib.sha256(repr(x).encode("utf-8", "replace")).hexdigest()[:16]


# --------------------------------------------------------------------------
# workloads

def gcase(rng, fams=("chars", "text", "tok"), lib=0.35, layout=0.3,
          repairable=None, depth=None, **kw):
    """A grammar with what is needed to make inputs for it."""
    if kw.pop("focus", None) == "layout" and "text" in fams:
        r = rng.random()
        if r < 0.25:
            name = rng.choice(["yaml", "offside"])
            return {"g": gen.LIB[name][0](), "fam": gen.LIB[name][1],
                    "name": name}
        if r < 0.75:
            return {"g": gen.layout_grammar(rng), "fam": "text",
                    "name": None}
        fam = rng.choice([f for f in fams if f != "chars"])
        for _ in range(20):
            g = gen.grammar(rng, fam, layout=True, depth=depth)
            if gen.has_layout(g):
                break
        return {"g": g, "fam": fam, "name": None}
    if rng.random() < lib:
        names = [n for n in sorted(gen.LIB) if gen.LIB[n][1] in fams]
        if names:
            name = rng.choice(names)
            f, fam = gen.LIB[name]
            return {"g": f(), "fam": fam, "name": name}
    fam = rng.choice(list(fams))
    lay = rng.random() < layout and fam != "chars"
    if lay and fam == "text" and rng.random() < 0.4 and not repairable:
        return {"g": gen.layout_grammar(rng), "fam": fam, "name": None}
    rep = rng.random() < 0.5 if repairable is None else repairable
    g = gen.grammar(rng, fam, layout=lay, repairable=rep, depth=depth, **kw)
    if fam == "chars" and rng.random() < 0.25:
        g, fam = gen.skinned(g, gen.make_skin(rng)), "obj"
    return {"g": g, "fam": fam, "name": None}


def sentence(rng, gc, limit):
    """A sentence, with token locations; in grammars that look at columns
    one of several, preferably one that gets far."""
    best = None
    tries = rng.choice([1, 6, 12]) if gc["fam"] in ("text", "tok") and \
        gen.has_layout(gc["g"]) else 1
    for _ in range(tries):
        items = gen.sentence(gc["g"], rng, limit, gc.get("more", 0))
        locs = gen.render_tokens(items, rng) if gc["fam"] == "tok" else None
        if tries == 1:
            return items, locs
        s = gen.progress(gc["g"], "tok" if locs is not None else "strlc",
                         items, locs) - (not items)
        if best is None or s > best[0]:
            best = s, items, locs
    return best[1:]


def icase(rng, gc, counts=(0, 0, 1, 1, 2, 3), cap=60, kinds=None,
          limit=None, faults=gen.FAULTS):
    """One input: a sentence of the grammar sent through a lossy channel."""
    if gc["name"] == "yaml":
        items = list(gen.yaml_text(rng))
    elif gc["name"] == "offside":
        items = list(gen.offside_text(rng))
    else:
        items, locs = sentence(rng, gc, limit)
    full = items
    wide = gc["fam"] == "text" and rng.random() < 0.05
    items = items[:400 if wide else cap]
    if wide:
        items = stretch(rng, items)
    items, trace = gen.damage(rng, items,
                              gen.alphabet_of(gc["g"], gc["fam"]),
                              rng.choice(list(counts)), faults)
    ks = {"tok": ["tok"], "text": ["str0", "strlc", "strlc"],
          "chars": ["str0", "strlc", "seq", "seq"],
          "obj": ["seq"]}[gc["fam"]]
    if kinds:
        ks = [k for k in ks if k in kinds] or ks
    kind = rng.choice(ks)
    out = {"kind": kind, "dmg": [t[0] for t in trace]}
    if kind == "tok":
        out["locs"] = locs if not trace and items == full else \
            relocate(full, locs, items, rng)
    if kind in ("seq", "tok") and rng.random() < 0.3:
        out["cont"] = rng.choice(["tuple", "user"] + (
            ["bytes", "bytes", "bytearray", "range"]
            if gc["fam"] == "obj" else []))
    out["items"] = "".join(items) if kind.startswith("str") else items
    return out


def stretch(rng, items):
    """White space made long where there is some, hundreds of characters."""
    at = [i for i, c in enumerate(items) if c in " \n"] or [len(items)]
    for i in sorted(rng.sample(at, min(len(at), rng.choice([1, 1, 2]))),
                    reverse=True):
        items = (items[:i] + ["\n"] * rng.choice([0, 1, 1, 20])
                 + [" "] * rng.choice([30, 150, 300]) + items[i:])
    return items


def relocate(full, locs, items, rng):
    """Locations after damage: elements before the first difference keep
    theirs."""
    n = 0
    while n < min(len(full), len(items)) and full[n] == items[n]:
        n += 1
    at = locs[n - 1][1] if n else (0, 0, 0)
    out = list(locs[:n])
    for (s, e) in gen.render_tokens(items[n:], rng):
        out.append(tuple((at[0] + p, at[1] + li, c if li else at[2] + c)
                         for p, li, c in (s, e)))
    return out


def long_input(rng, gc, reps):
    """A long valid-ish input: sentences glued together and cut."""
    items = []
    for _ in range(reps):
        items += gen.sentence(gc["g"], rng)
    return items


def parse_op(rng, b, i, kind, **kw):
    op = {"k": "parse", "b": b, "i": i, "rec": rng.random() < 0.55}
    if rng.random() < 0.4:
        op["mi"] = rng.choice([0, 1, 2, 5, 8])
    if rng.random() < 0.3:
        op["cl"] = True
    if rng.random() < 0.35:
        op["own"] = True
    op.update(kw)
    return op


def styles(rng):
    return rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7]) | rng.choice([0, 0, 0, 16])


def sched(rng, tasks, serial=0.03, clock=0.15):
    """A schedule policy, sometimes with an unusual clock."""
    p = {"kind": "serial", "seed": 0}
    if tasks > 1:
        p = core.random_policy(rng, None, serial)
    if rng.random() < clock:
        p.update(core.random_clock(rng))
    return p


# --------------------------------------------------------------------------
# executing

def clean(op):
    """The operation without faults, nesting and handles."""
    return {k: v for k, v in op.items()
            if k not in ("faults", "nest", "keep", "rep", "tag")}


def solo(plan, op):
    """A plan that runs one operation alone in a pristine process."""
    p = {k: plan[k] for k in ("grammars", "builds", "inputs") if k in plan}
    if "b" in op and plan.get("builds"):
        # only the parser in question exists
        p = dict(p, builds=[plan["builds"][op["b"]]])
        op = dict(op, b=0)
    p["tasks"] = [[op]]
    p["policy"] = SERIAL
    p["budget"] = ALONE
    return p


class Runner:
    """Runs plans of one property check; caches baselines within one run."""

    def __init__(self, call, entry="sim.world.execute"):
        self.call = call
        self.entry = entry
        self.base = {}
        self.execs = 0
        self.steps = 0

    def execute(self, plan, entry=None):
        self.execs += 1
        r = self.call(entry or self.entry, plan)
        self.steps += r["stats"]["steps"]
        return r

    def baseline(self, plan, op):
        op = clean(op)
        key = json.dumps(op, sort_keys=True)
        r = self.base.get(key)
        if r is None:
            x = self.execute(solo(plan, op))
            if x["fatal"]:
                r = {"fatal": x["fatal"]}
            else:
                r = x["ops"][0][0]
            self.base[key] = r
        return r


class Outcome:
    def __init__(self):
        self.viol = []
        self.stats = {}
        self.fired = {}
        self.sig = None
        self.nontrivial = False
        self.points = []
        self.states = []
        self.sample = None
        self.replay = None
        self.skipped = None
        self.digest = None

    def add(self, **kw):
        for k, v in kw.items():
            self.stats[k] = self.stats.get(k, 0) + v

    def fire(self, d):
        for k, v in d.items():
            self.fired[k] = self.fired.get(k, 0) + v

    def bad(self, code, msg):
        if len(self.viol) < 5:
            self.viol.append({"code": code, "msg": str(msg)[:1500]})

    def take(self, plan, r):
        """Absorbs an execution of the plan."""
        st = r["stats"]
        self.add(sim_steps=st["steps"], switches=st["switches"],
                 preemptions=st["preemptions"], irqs=st["irqs"],
                 race_switches=st["races"],
                 sim_time=st["sim_time"], sleeps=st["sleeps"],
                 time_jumps=st["time_jumps"],
                 clock_steps=st["clock_steps"],
                 odd_clock_rate=st["odd_clock_rate"], lock_waits=st["lock_waits"])
        self.fire(r["fired"])
        self.points += [list(p) for p in r["points"][:60]]
        self.replay = dict(plan, policy=r["policy"])
        self.sig = h((r["policy"]["decisions"],
                      [plan.get(k) for k in ("grammars", "inputs", "tasks")],
                      self.sig))
        self.digest = h((self.digest, r["digest"]))


def settled(out, r):
    """Reports settings of the process that work has changed for good."""
    for k, a, b in r["extra"].get("process", ()):
        out.bad("process", "the %s was %s before and is %s after" % (k, a, b))


def budgeted(out, r, what="run"):
    """Reports a run that did not end."""
    if r["fatal"]:
        out.bad("no-progress:" + r["fatal"][0],
                "%s: %s %s" % (what, r["fatal"][0], r["fatal"][1]))
        return True
    return False


def tiny_limits(plan):
    return dict(plan, tasks=[[
        dict(op, mi=min(op.get("mi", 5), 2)) if op["k"] == "parse" else op
        for op in ops] for ops in plan["tasks"]])


def bounded(out, run, plan, *a):
    """Runs a plan whose operations have no baselines.

    The number of repairs to try may grow exponentially with the insertion
    limit; endless is what does not end with a tiny one.
    """
    r = run.execute(plan, *a)
    if r["fatal"] and r["fatal"][0] == "Livelock":
        tiny = tiny_limits(plan)
        r2 = None if plan.get("long") else run.execute(tiny, *a)
        if r2 is None or not r2["fatal"]:
            out.add(undecided=1)
            out.skipped = "too many repairs to try"
            return None, None
        return tiny, r2
    return plan, r


def with_length(plan, steps):
    if plan["policy"].get("kind") == "pct" and \
            not plan["policy"].get("length"):
        plan = dict(plan, policy=dict(plan["policy"], length=max(10, steps)))
    return plan


def show(op):
    return {k: v for k, v in op.items() if k != "dmg"}


def same(a, b):
    return a["res"] == b["res"]


def describe(plan, op):
    i = plan["inputs"][op["i"]] if "i" in op else None
    return "%s on %s input %.200r" % (
        {k: v for k, v in op.items() if k in ("k", "rec", "mi", "cl", "own")},
        i and i["kind"], i and i["items"])


def overlaps(ops):
    """How many pairs of operations of different threads overlapped."""
    iv = [(o["t0"], o["t1"], k) for k, os_ in ops.items() for o in os_]
    n = 0
    for a in range(len(iv)):
        for b in range(a):
            if iv[a][2] != iv[b][2] and iv[a][0] < iv[b][1] and \
                    iv[b][0] < iv[a][1]:
                n += 1
    return n


# --------------------------------------------------------------------------
# shrinking

def drop_range(x, a, b):
    return x[:a] + x[b:]


def chunks(n):
    size = n
    while size >= 1:
        for a in range(0, n, size):
            yield a, min(n, a + size)
        if size == 1:
            break
        size //= 2


def shrink_policy(plan):
    pol = plan.get("policy", {})
    if pol.get("kind") != "explicit":
        return
    d = pol["decisions"]
    for a, b in chunks(len(d)):
        yield dict(plan, policy=dict(pol, decisions=drop_range(d, a, b)))


def retask(plan, tasks, gone=None):
    """Replaces the tasks; keeps the schedule meaningful."""
    p = dict(plan, tasks=tasks)
    pol = plan.get("policy", {})
    if gone is not None and pol.get("kind") == "explicit":
        m = {}
        for k in range(len(plan["tasks"])):
            if k != gone:
                m[k] = len(m)
        p["policy"] = dict(pol, first=m.get(pol.get("first", 0), 0),
                           decisions=[[m[t], s, m[u]]
                                      for t, s, u in pol["decisions"]
                                      if t in m and u in m])
    return p


def shrink_tasks(plan):
    ts = plan["tasks"]
    for k in range(len(ts)):
        if len(ts) > 1:
            yield retask(plan, drop_range(ts, k, k + 1), k)
    for k in range(len(ts)):
        for a, b in chunks(len(ts[k])):
            if b - a < len(ts[k]) or len(ts) > 1:
                yield retask(plan, ts[:k] + [drop_range(ts[k], a, b)] +
                             ts[k + 1:])
    for k in range(len(ts)):
        for j, op in enumerate(ts[k]):
            for field in ("faults", "nest"):
                for q in range(len(op.get(field, ()))):
                    o = dict(op)
                    o[field] = drop_range(op[field], q, q + 1)
                    if not o[field]:
                        del o[field]
                    yield retask(plan, ts[:k] + [
                        ts[k][:j] + [o] + ts[k][j + 1:]] + ts[k + 1:])
            for field in ("cl", "own", "mi", "rec", "lazy"):
                if op.get(field):
                    o = dict(op)
                    del o[field]
                    yield retask(plan, ts[:k] + [
                        ts[k][:j] + [o] + ts[k][j + 1:]] + ts[k + 1:])


def shrink_inputs(plan):
    for k, i in enumerate(plan.get("inputs", [])):
        n = len(i["items"])
        for a, b in chunks(n):
            j = dict(i, items=drop_range(i["items"], a, b))
            if i.get("locs"):
                j["locs"] = drop_range(i["locs"], a, b)
            yield dict(plan, inputs=plan["inputs"][:k] + [j] +
                       plan["inputs"][k + 1:])


def smaller_nodes(n):
    """Simpler versions of one grammar node."""
    ks = lang.kids(n)
    if n[0] == "bind":
        yield n[2]
        if len(n[3]) > 1:
            for c in n[3]:
                yield [n[0], n[1], n[2], [c]]
    else:
        for c in ks:
            yield c
    if n[0] in ("then", "apply") and len(ks) > 2:
        for j in range(len(ks)):
            yield lang.with_kids(n, drop_range(ks, j, j + 1))
    for j, c in enumerate(ks):
        for d in smaller_nodes(c):
            yield lang.with_kids(n, ks[:j] + [d] + ks[j + 1:])


def shrink_grammar(g):
    for d in smaller_nodes(g["start"]):
        yield prune({"rules": g["rules"], "start": d})
    for r in sorted(g["rules"]):
        for d in smaller_nodes(g["rules"][r]):
            yield prune({"rules": dict(g["rules"], **{r: d}),
                         "start": g["start"]})


def prune(g):
    used, todo = set(), [g["start"]]
    while todo:
        for n in lang.walk(todo.pop()):
            if n[0] == "ref" and n[1] not in used:
                used.add(n[1])
                if n[1] in g["rules"]:
                    todo.append(g["rules"][n[1]])
    return {"rules": {r: n for r, n in g["rules"].items() if r in used},
            "start": g["start"]}


def shrink_grammars(plan):
    for k, g in enumerate(plan.get("grammars", [])):
        for s in shrink_grammar(g):
            if lang.wellformed(s):
                yield dict(plan, grammars=plan["grammars"][:k] + [s] +
                           plan["grammars"][k + 1:])
    for k, b in enumerate(plan.get("builds", [])):
        if b.get("style"):
            yield dict(plan, builds=plan["builds"][:k] +
                       [dict(b, style=0)] + plan["builds"][k + 1:])


def shrink_plan(plan):
    yield from shrink_tasks(plan)
    yield from shrink_policy(plan)
    yield from shrink_inputs(plan)
    yield from shrink_grammars(plan)


class Prop:
    """One property check."""

    id = None
    entry = "sim.world.execute"
    quick = 2000
    thorough = 40000
    level = "exploration"
    rule = ""
    real = ["the whole library: parser.py, core/*, sequence, scannerless, "
            "lexer, layout, primitive, types (real code, compiled from "
            "/repo/src on every run)"]
    stub = ["thread scheduler, clock, sleep, locks (simulated)",
            "user callbacks, streams and callers (workload)"]
    peers = 0               # extra zygotes with other hash seeds

    def make(self, rng, tier):
        raise NotImplementedError

    def judge(self, plan, call):
        raise NotImplementedError

    def shrink(self, plan):
        return shrink_plan(plan)

    def probes(self, stats):
        """Rare conditions that must have been reached: name -> count."""
        return {}


__all__ = [n for n in dir() if not n.startswith("_")]
_ = (copy, random, RunError)
