"""Command line of the checks.

  python -m sim.main check C01 [--tier quick|thorough] [--runs N]
  python -m sim.main replay FILE
  python -m sim.main one C01 INDEX        (re-run one seed, verbose)
  python -m sim.main determinism [--runs N]
"""

import argparse
import hashlib
import json
import os
import random
import select
import subprocess
import sys
import time
import traceback

from . import props, stepper
from .client import Client, Hang, RunError
from .props.common import Outcome

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAP = {"quick": 420, "thorough": 3600}


def seed_of():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def rng_for(seed, prop, idx):
    return random.Random("%s/%s/%s" % (seed, prop, idx))


def make_plan(p, seed, idx, tier):
    """The plan of a run; workloads too deep to be made are drawn again."""
    for k in range(20):
        name = "%d/%d" % (idx, k) if k else idx
        try:
            return p.make(rng_for(seed, p.id, name), tier)
        except RecursionError:
            if k == 19:
                raise


def hash_seed(seed, w):
    return int.from_bytes(hashlib.sha256(
        b"%d:%d" % (seed, w)).digest()[:4], "big")


class Pool:
    """Zygotes by hash seed."""

    def __init__(self, hashseed, timeout=60):
        self.hashseed = hashseed
        self.timeout = timeout
        self.by = {}
        self.calls = 0

    def call(self, fn, *args, hashseed=None):
        hs = self.hashseed if hashseed is None else hashseed
        c = self.by.get(hs)
        if c is None:
            c = self.by[hs] = Client(hs, self.timeout)
        self.calls += 1
        return c.call(fn, *args)

    def close(self):
        for c in self.by.values():
            c.close()
        self.by = {}


def judged(p, plan, call):
    """The outcome of one run.  A library that is broken badly enough ends
    the process, or answers what cannot be read: that is an outcome too."""
    try:
        return p.judge(plan, call)
    except (Hang, OSError, MemoryError):
        raise
    except RecursionError:
        # in the oracle; what happens in the library is part of a result
        o = Outcome()
        o.skipped = "too deep for the oracle"
        return o
    except Exception as e:
        o = Outcome()
        o.bad("unreadable:" + type(e).__name__, "".join(
            traceback.format_exception(e))[-1200:])
        return o


# --------------------------------------------------------------------------
# worker: a share of the runs of one check

def worker(a):
    p = props.ALL[a.prop]
    pool = Pool(hash_seed(a.seed, a.w))
    out = sys.stdout
    agg = new_agg()
    t_last = time.monotonic()

    def flush():
        nonlocal agg, t_last
        out.write(json.dumps({"agg": agg}) + "\n")
        out.flush()
        agg = new_agg()
        t_last = time.monotonic()
    late = 0
    for idx in range(a.w, a.runs, a.n):
        plan = None
        try:
            plan = make_plan(p, a.seed, idx, a.tier)
            try:
                o = judged(p, plan, pool.call)
            except Hang:
                # wall clock only: never a verdict, retried once
                pool.close()
                slow = Pool(pool.hashseed, 150)
                try:
                    o = judged(p, plan, slow.call)
                except Hang as e:
                    slow.close()
                    late += 1
                    if late > 2:
                        out.write(json.dumps({"error": "run %d: %s" % (
                            idx, e), "plan": plan}) + "\n")
                        out.flush()
                        return 2
                    o = Outcome()
                    o.skipped = "no answer in time"
                slow.close()
        except Exception:
            out.write(json.dumps({"error": "run %d:\n%s" % (
                idx, traceback.format_exc()), "plan": plan}) + "\n")
            out.flush()
            return 2
        merge(agg, o, idx)
        if o.viol:
            flush()
            out.write(json.dumps({
                "violation": o.viol, "idx": idx, "plan": plan,
                "replay": o.replay, "hashseed": pool.hashseed}) + "\n")
            out.flush()
            pool.close()
            return 1
        if time.monotonic() - t_last > 1:
            flush()
    flush()
    pool.close()
    return 0


def new_agg():
    return {"runs": 0, "nontrivial": 0, "sigs": [], "stats": {}, "fired": {},
            "points": [], "states": [], "samples": [], "skipped": {},
            "digests": []}


def merge(agg, o, idx):
    agg["runs"] += 1
    if o.skipped:
        agg["skipped"][o.skipped] = agg["skipped"].get(o.skipped, 0) + 1
    if o.nontrivial:
        agg["nontrivial"] += 1
        agg["sigs"].append(o.sig)
    for k, v in o.stats.items():
        agg["stats"][k] = agg["stats"].get(k, 0) + v
    for k, v in o.fired.items():
        agg["fired"][k] = agg["fired"].get(k, 0) + v
    pts = {tuple(x) for x in agg["points"]}
    pts |= {tuple(x) for x in o.points}
    agg["points"] = [list(x) for x in pts]
    agg["states"] = sorted(set(agg["states"]) | set(o.states))
    if o.sample is not None and o.nontrivial and len(agg["samples"]) < 3:
        agg["samples"].append(dict(o.sample, run=idx))
    if idx % 97 == 0:
        agg["digests"].append([idx, o.digest])


# --------------------------------------------------------------------------
# the check

def check(a):
    t0 = time.monotonic()
    p = props.ALL[a.prop]
    seed = seed_of()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    runs = a.runs or getattr(p, tier)
    n = a.workers or min(8, os.cpu_count() or 1)
    print("%s %s: seed %d, %d runs on %d workers" % (
        a.prop, tier, seed, runs, n), flush=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    procs = {}
    for w in range(n):
        env["PYTHONHASHSEED"] = str(hash_seed(seed, 1000 + w))
        q = subprocess.Popen(
            [sys.executable, "-s", "-m", "sim.main", "worker", a.prop,
             "--tier", tier, "--runs", str(runs), "--w", str(w),
             "--n", str(n), "--seed", str(seed)],
            cwd=ROOT, env=dict(env), stdout=subprocess.PIPE,
            start_new_session=True)
        procs[q.stdout.fileno()] = [q, b""]
    tot = Totals()
    viols, errors = [], []
    live = dict(procs)
    stop_at = None
    capped = False
    while live:
        left = CAP[tier] - (time.monotonic() - t0)
        if left <= 0:
            capped = True
            break
        if stop_at is not None:
            left = min(left, stop_at - time.monotonic())
            if left <= 0:
                break
        rd, _, _ = select.select(list(live), [], [], min(left, 5))
        for fd in rd:
            b = os.read(fd, 1 << 16)
            if not b:
                q, rest = live.pop(fd)
                q.wait()
                if q.returncode not in (0, 1, 2):
                    errors.append("worker ended with %s" % q.returncode)
                continue
            live[fd][1] += b
            *lines, live[fd][1] = live[fd][1].split(b"\n")
            for ln in lines:
                m = json.loads(ln)
                if "agg" in m:
                    tot.absorb(m["agg"])
                elif "violation" in m:
                    viols.append(m)
                    if stop_at is None:
                        stop_at = time.monotonic() + 3
                else:
                    errors.append(m["error"])
    for q, _ in procs.values():
        kill_group(q)
    explore = time.monotonic() - t0
    report = None
    if viols:
        v = min(viols, key=lambda m: m["idx"])
        report = settle(a.prop, seed, v, errors)
    wall = time.monotonic() - t0
    write_evidence(p, tier, seed, runs, tot, wall, explore, n, capped,
                   1 if report else 0, errors)
    if report:
        print("VIOLATION property=%s replay=%s" % (a.prop, report))
        return 1
    for f in known_findings(a.prop):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, f))
    if errors:
        print("ERROR: the check could not decide:\n" + errors[0],
              file=sys.stderr)
        return 2
    if capped and tot.runs < runs // 10:
        print("ERROR: only %d of %d runs within the time limit" % (
            tot.runs, runs), file=sys.stderr)
        return 2
    if tot.nontrivial == 0:
        print("ERROR: no non-trivial run", file=sys.stderr)
        return 2
    print("%s held on %d runs (%d distinct non-trivial), %.1f s" % (
        a.prop, tot.runs, len(tot.sigs), wall))
    return 0


def kill_group(q):
    try:
        os.killpg(q.pid, 9)
    except OSError:
        pass
    q.wait()


def known_findings(prop):
    try:
        with open(os.path.join(ROOT, "known_findings.txt")) as f:
            for ln in f:
                if ln.startswith("finding: property=%s " % prop):
                    yield ln.split(" ", 2)[2].strip()
    except OSError:
        return


class Totals:
    def __init__(self):
        self.runs = self.nontrivial = 0
        self.sigs = set()
        self.stats = {}
        self.fired = {}
        self.points = set()
        self.states = set()
        self.samples = []
        self.skipped = {}
        self.digests = []

    def absorb(self, g):
        self.runs += g["runs"]
        self.nontrivial += g["nontrivial"]
        self.sigs.update(g["sigs"])
        for name in ("stats", "fired", "skipped"):
            d = getattr(self, name)
            for k, v in g[name].items():
                d[k] = d.get(k, 0) + v
        self.points.update(map(tuple, g["points"]))
        self.states.update(g["states"])
        if len(self.samples) < 6:
            self.samples += g["samples"][:2]
        self.digests += g["digests"]


def write_evidence(p, tier, seed, runs, tot, wall, explore, workers, capped,
                   violations, errors):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    hrs = max(explore, 1e-6) / 3600
    st = dict(tot.stats)
    cov = {
        "evaluations": tot.runs,
        "distinct_nontrivial": len(tot.sigs),
        "rule": p.rule,
        "samples": tot.samples or [{"note": "none kept"}],
        "runs_planned": runs,
        "non_trivial_runs": tot.nontrivial,
        "runs_per_hour": round(tot.runs / hrs),
        "seeds_per_hour": round(tot.runs / hrs),
        "simulated_seconds": round(st.pop("sim_time", 0), 3),
        "counters": {k: round(v, 3) for k, v in sorted(st.items())},
        "faults_fired": dict(sorted(tot.fired.items())),
        "distinct_preemption_points": len(tot.points),
        "distinct_states": len(tot.states),
        "state_measure": "distinct (code object, bytecode offset or user "
                         "callback kind) at which a thread was preempted or "
                         "interrupted; distinct_states counts the property's "
                         "own state hashes where it defines them",
        "skipped_runs": tot.skipped,
        "probes": p.probes(dict(tot.stats, **tot.fired)),
        "real_components": p.real,
        "stub_components": p.stub,
        "workers": workers,
        "time_capped": capped,
        "digest_samples": sorted(tot.digests)[:12],
        "harness_errors": len(errors),
    }
    ev = {"property": p.id, "tier": tier, "seed": seed, "level": p.level,
          "coverage": cov, "wall_s": round(wall, 2),
          "violations": violations,
          "assumptions": [
              "CPython 3.12; threads interleave at bytecode boundaries of "
              "library code and at user callbacks",
              "sampling: a clean batch is evidence, not proof"]}
    with open(os.path.join(ROOT, "evidence", p.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write("\n")


# --------------------------------------------------------------------------
# violations: confirm in a fresh process, minimise, write the replay file

def violates(p, plan, pool, code):
    o = judged(p, plan, pool.call)
    for v in o.viol:
        if code is None or v["code"] == code:
            return v, o
    return None, o


def settle(prop, seed, m, errors, limit=75):
    p = props.ALL[prop]
    code = m["violation"][0]["code"]
    pool = Pool(m["hashseed"])
    best, note = None, "minimised"
    t0 = time.monotonic()
    try:
        for plan in (m["replay"], m["plan"]):
            if plan is None:
                continue
            plan = json.loads(json.dumps(plan))
            v, o = violates(p, plan, pool, code)
            if v:
                best = plan
                break
    except RunError as e:
        errors.append("confirming: %s" % e)
    if best is None:
        best, note = m["plan"], "not reproduced at once; unminimised"
        v = m["violation"][0]
    else:
        best, v = minimise(p, best, v, code, pool, t0 + limit)
    pool.close()
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    path = os.path.join("replays", "%s-%d-%d.json" % (prop, seed, m["idx"]))
    with open(os.path.join(ROOT, path), "w") as f:
        json.dump({"property": prop, "seed": seed, "index": m["idx"],
                   "hashseed": m["hashseed"], "code": code,
                   "message": v["msg"], "note": note, "plan": best}, f,
                  indent=1)
        f.write("\n")
    print("%s: %s" % (code, v["msg"]))
    r = subprocess.run([sys.executable, "-s", "-m", "sim.main", "replay",
                        path, "--quiet"], cwd=ROOT, capture_output=True,
                       timeout=200)
    print("replay in a fresh process: %s" % (
        "reproduced" if r.returncode == 1 else "NOT reproduced"))
    if r.returncode != 1 and note != "minimised":
        # twice unconfirmed: this says nothing about the library
        errors.append("violation of run %d did not reproduce: %s" % (
            m["idx"], v["msg"]))
        return None
    return path


def cost(plan):
    pol = plan.get("policy", {})
    return len(json.dumps(plan)) + 40 * len(pol.get("decisions", ()))


def minimise(p, plan, v, code, pool, until):
    """Greedy shrinking while the same violation persists."""
    again = True
    while again and time.monotonic() < until:
        again = False
        for cand in p.shrink(plan):
            if time.monotonic() > until:
                break
            if cost(cand) >= cost(plan):
                continue
            try:
                w, o = violates(p, cand, pool, code)
            except Exception:
                continue
            if w:
                new = cand
                if o.replay is not None:
                    new = json.loads(json.dumps(o.replay))
                    if cost(new) > cost(cand):
                        new = cand
                plan, v, again = new, w, True
                break
    return plan, v


def replay(a):
    with open(os.path.join(ROOT, a.file) if not os.path.isabs(a.file)
              else a.file) as f:
        m = json.load(f)
    p = props.ALL[m["property"]]
    pool = Pool(m["hashseed"])
    try:
        v, o = violates(p, m["plan"], pool, m["code"])
    finally:
        pool.close()
    if not a.quiet:
        print(json.dumps(m["plan"], indent=1))
    if v:
        print("%s: %s" % (v["code"], v["msg"]))
        print("digest %s" % o.digest)
        print("VIOLATION property=%s replay=%s" % (m["property"], a.file))
        return 1
    print("no violation; digest %s" % o.digest)
    return 0


def one(a):
    p = props.ALL[a.prop]
    plan = make_plan(p, seed_of(), a.index, a.tier or "quick")
    pool = Pool(hash_seed(seed_of(), 0))
    o = p.judge(plan, pool.call)
    pool.close()
    print(json.dumps(plan))
    print(o.viol, o.stats, o.fired, o.nontrivial, o.skipped, o.digest)
    return 1 if o.viol else 0


def digests(a):
    """Internal: prints plan and event-log digests of some runs."""
    p = props.ALL[a.prop]
    pool = Pool(a.hs)
    for idx in range(a.w, a.runs, a.n):
        plan = make_plan(p, a.seed, idx, "quick")
        o = p.judge(plan, pool.call)
        print(idx, hashlib.sha256(json.dumps(plan).encode()).hexdigest()[:12],
              o.digest, len(o.viol))
    pool.close()
    return 0


def determinism(a):
    """Same seeds, different hash seeds, processes and worker counts."""
    bad = 0
    names = a.props or sorted(props.ALL)
    for prop in names:
        logs = []
        for rep, (n, hs) in enumerate(((1, 1), (4, 77), (3, 4242))):
            qs = []
            for w in range(n):
                env = dict(os.environ, PYTHONHASHSEED=str(hs + w),
                           PYTHONDONTWRITEBYTECODE="1")
                qs.append(subprocess.Popen(
                    [sys.executable, "-s", "-m", "sim.main", "digests", prop,
                     "--runs", str(a.runs), "--w", str(w), "--n", str(n),
                     "--seed", str(seed_of()), "--hs", str(hs + 9 * w)],
                    cwd=ROOT, env=env, stdout=subprocess.PIPE))
            lines = []
            for q in qs:
                lines += q.communicate()[0].decode().splitlines()
            logs.append(sorted(lines, key=lambda s: int(s.split()[0])))
        ok = logs[0] == logs[1] == logs[2] and len(logs[0]) == a.runs
        print("%s: %d runs x 3: %s" % (prop, len(logs[0]),
                                       "identical" if ok else "DIFFERENT"))
        if not ok:
            bad += 1
            for x, y, z in zip(*logs):
                if not x == y == z:
                    print("  ", x, "|", y, "|", z)
                    break
    return 1 if bad else 0


def selftest(a):
    """Set up: the machinery runs here and is deterministic."""
    pool = Pool(1)
    other = Pool(2)
    for prop in sorted(props.ALL):
        p = props.ALL[prop]
        for idx in range(2):
            plan = make_plan(p, 1, idx, "quick")
            try:
                x, y = (p.judge(plan, q.call) for q in (pool, other))
            except RunError as e:
                # the library may be broken: that is for the checks to say
                print("%s: %s" % (prop, str(e).splitlines()[-1]))
                break
            if not x.viol and x.digest != y.digest:
                print("%s: not deterministic" % prop)
    pool.close()
    other.close()
    print("ready")
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--tier")
    c.add_argument("--runs", type=int)
    c.add_argument("--workers", type=int)
    for name in ("worker", "digests"):
        w = sub.add_parser(name)
        w.add_argument("prop")
        w.add_argument("--tier", default="quick")
        w.add_argument("--runs", type=int, required=True)
        w.add_argument("--w", type=int, default=0)
        w.add_argument("--n", type=int, default=1)
        w.add_argument("--seed", type=int, default=1)
        w.add_argument("--hs", type=int, default=0)
    r = sub.add_parser("replay")
    r.add_argument("file")
    r.add_argument("--quiet", action="store_true")
    o = sub.add_parser("one")
    o.add_argument("prop")
    o.add_argument("index", type=int)
    o.add_argument("--tier")
    d = sub.add_parser("determinism")
    d.add_argument("props", nargs="*")
    d.add_argument("--runs", type=int, default=60)
    sub.add_parser("selftest")
    a = ap.parse_args()
    if a.cmd not in ("worker", "digests"):
        stepper.build()
    return {"selftest": selftest,
            "check": check, "worker": worker, "replay": replay, "one": one,
            "digests": digests, "determinism": determinism}[a.cmd](a)


if __name__ == "__main__":
    sys.exit(main())
