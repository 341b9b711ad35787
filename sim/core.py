"""The simulator: one process, one running thread at a time, every choice made
by a seeded policy and recorded.

Caller threads are real threads that hold a baton.  The baton can move at any
bytecode instruction of the library under test (sys.monitoring INSTRUCTION
events on the library's own code objects) and at every user callback.  Clocks,
sleeps and locks the library could reach are replaced by simulated ones.
Interrupts and failing allocations are raised from inside the instruction
event, so they appear at an exact, repeatable place of the library's
execution.
"""

import _thread
import dis
import hashlib
import os
import random
import sys
import threading
import time
import types

from . import stepper

REAL_LOCK = _thread.allocate_lock
REAL_RLOCK = threading.RLock
SRC = "/repo/src/reparsec"

FAR = 1 << 62


class SimError(BaseException):
    """Base of the simulator's own control exceptions."""


class Livelock(SimError):
    pass


class Deadlock(SimError):
    pass


class HarnessError(Exception):
    pass


# --------------------------------------------------------------------------
# which code is the library

def _codes_of(code, out):
    if code in out:
        return
    out.add(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _codes_of(c, out)


def library_codes():
    """Every code object of the library, in a stable order."""
    out = set()
    for name in sorted(sys.modules):
        if name != "reparsec" and not name.startswith("reparsec."):
            continue
        seen = set()
        todo = list(vars(sys.modules[name]).values())
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, (staticmethod, classmethod)):
                o = o.__func__
            if isinstance(o, property):
                todo += [o.fget, o.fset, o.fdel]
            elif isinstance(o, types.FunctionType):
                if str(getattr(o, "__module__", "")).startswith("reparsec") \
                        or o.__code__.co_filename.startswith(SRC):
                    _codes_of(o.__code__, out)
                if hasattr(o, "__wrapped__"):
                    todo.append(o.__wrapped__)
            elif isinstance(o, type):
                if str(o.__module__).startswith("reparsec"):
                    todo += list(vars(o).values())
            elif isinstance(o, types.MethodType):
                todo.append(o.__func__)
            elif hasattr(o, "__wrapped__"):
                todo.append(o.__wrapped__)
            elif type(o).__module__.startswith("reparsec"):
                todo += list(getattr(o, "__dict__", {}).values())
    # closures created at import time (module level parsers)
    return sorted(out, key=lambda c: (
        c.co_filename, c.co_firstlineno, c.co_qualname, c.co_varnames,
        c.co_names, c.co_freevars, c.co_code, str(list(c.co_positions()))))


# instructions where CPython really can deliver a signal handler's exception
# or fail an allocation
_IRQ = ("CALL", "RESUME", "JUMP_BACKWARD", "BUILD_", "MAKE_FUNCTION",
        "LIST_", "DICT_", "SET_")


def irq_offsets(code):
    return frozenset(i.offset for i in dis.get_instructions(code)
                     if i.opname.startswith(_IRQ))


# ways to change an object other threads may hold
_MUTATE = frozenset((
    "append", "extend", "insert", "pop", "popleft", "appendleft", "remove",
    "clear", "add", "discard", "update", "setdefault", "popitem", "sort",
    "reverse"))
_STORES = ("STORE_GLOBAL", "STORE_ATTR", "STORE_SUBSCR", "DELETE_GLOBAL",
           "DELETE_ATTR", "DELETE_SUBSCR", "DELETE_DEREF", "STORE_DEREF")


def race_offsets(codes):
    """Instructions that touch state more than one call can see: writes to
    cells, attributes, globals and items, and the reads of what is written
    somewhere."""
    written = set()
    ins = {}
    for c in codes:
        xs = ins[c] = list(dis.get_instructions(c))
        free = set(c.co_freevars)
        for i in xs:
            if i.opname == "STORE_GLOBAL" or (
                    i.opname == "STORE_ATTR" and c.co_name != "__init__") or (
                    i.opname == "STORE_DEREF" and i.argval in free):
                written.add((i.opname[6:], i.argval))
    out = {}
    for c in codes:
        if c.co_filename == "<string>":
            continue            # methods generated by dataclasses
        offs, after = set(), False
        init = c.co_name == "__init__"
        for i in ins[c]:
            op = i.opname
            if after:
                offs.add(i.offset)
                after = False
            if op.startswith(_STORES):
                kind = op.split("_", 1)[1]
                if op == "STORE_DEREF" and (kind, i.argval) not in written:
                    continue
                if init and op == "STORE_ATTR":
                    continue
                offs.add(i.offset)
                after = True
            elif op.startswith("LOAD_") and i.argval in _MUTATE:
                offs.add(i.offset)
            elif op.startswith("LOAD_"):
                kind = op.split("_", 1)[1]
                kind = {"METHOD": "ATTR", "CLASSDEREF": "DEREF"}.get(
                    kind, kind)
                if (kind, i.argval) in written and not init:
                    offs.add(i.offset)
        if offs:
            out[c] = frozenset(offs)
    return out


TOOL = 3
Stepper = None
_CODES = []
_RACE = []
_IRQ_OFF = {}
_CODE_ID = {}


def bitmap(code, offs=None):
    n = len(code.co_code) // 2 + 1
    if offs is None:
        return b"\1" * n
    return bytes(2 * k in offs for k in range(n))


def instrument():
    """Turns instruction events on for the library (once per process)."""
    global _CODES, Stepper
    Stepper = stepper.load()
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "simulation")
    _CODES = library_codes()
    for k, c in enumerate(_CODES):
        _IRQ_OFF[id(c)] = irq_offsets(c)
        _CODE_ID[id(c)] = k
        mon.set_local_events(TOOL, c, mon.events.INSTRUCTION)
    _RACE.extend((c, bitmap(c, offs))
                 for c, offs in race_offsets(_CODES).items())
    mon.register_callback(TOOL, mon.events.INSTRUCTION, None)


def code_count():
    return len(_CODES)


# --------------------------------------------------------------------------
# simulated clock and locks

_CUR = None      # the running Sim


class SimLock:
    """Replacement for threading.Lock; waits go through the scheduler."""

    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _me(self):
        if _CUR is None or _CUR.cur is None:
            return "main"
        return _CUR.cur

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if _CUR is not None:
            _CUR.lock_ops += 1
        while self.owner is not None:
            if self.reentrant and self.owner is me:
                self.count += 1
                return True
            if not blocking:
                return False
            if _CUR is None or _CUR.cur is None:
                raise Deadlock("lock held by the only thread")
            wake = FAR if timeout is None or timeout < 0 else \
                _CUR.now() + timeout
            _CUR.lock_waits += 1
            if not _CUR.block(self, wake):
                return False
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if _CUR is not None:
                _CUR.wake(self)

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner is self._me()


class SimRLock(SimLock):
    reentrant = True


_REAL_TIME = {k: getattr(time, k) for k in ("monotonic", "sleep")}
wall = _REAL_TIME["monotonic"]


def _now():
    return _CUR.now() if _CUR is not None else 0.0


def _wall():
    return 1.6e9 + (_CUR.now(2) if _CUR is not None else 0.0)


def _sleep(d):
    if _CUR is not None and _CUR.cur is not None:
        _CUR.sleep_until(_CUR.now() + d)


def patch():
    """Installs the seams; must run before the library is imported."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    _thread.allocate_lock = _thread.allocate = SimLock
    _thread.RLock = SimRLock
    time.time = _wall
    time.time_ns = lambda: int(_wall() * 1e9)
    for k in ("monotonic", "perf_counter", "process_time", "thread_time"):
        setattr(time, k, _now)
        setattr(time, k + "_ns", lambda: int(_now() * 1e9))
    time.sleep = _sleep
    # randomness is an input as well; see seed()
    os.urandom = random._urandom = _ENTROPY.randbytes


_ENTROPY = random.Random(0)


def seed(n):
    random.seed(n)
    _ENTROPY.seed(n)


class Addresses:
    """What id() says to the library: the addresses of an allocator that
    gives out the address of the last freed object first."""

    def __init__(self):
        self.known = {}         # real id -> (object, address)
        self.free = []
        self.n = 0

    def __call__(self, x):
        e = self.known.get(id(x))
        if e is not None:
            return e[1]
        for k in list(self.known):
            e = self.known[k]
            # held by the table, its pair, and this call only
            if sys.getrefcount(e[0]) <= 2:
                a, e = e[1], None
                del self.known[k]
                self.free.append(a)
            e = None
        if self.free:
            a = self.free.pop()
        else:
            self.n += 1
            a = 0x7f0000000000 + 48 * self.n
        self.known[id(x)] = (x, a)
        return a

    def hash(self, x):
        if type(x).__hash__ is object.__hash__:
            return self(x) >> 4
        return hash(x)


def patch_id():
    """After the library is imported."""
    ids = Addresses()
    for name, m in list(sys.modules.items()):
        if name.partition(".")[0] == "reparsec" and \
                not hasattr(m, "id") and not hasattr(m, "hash"):
            m.id, m.hash = ids, ids.hash


def real_id():
    for m in list(sys.modules.values()):
        if isinstance(getattr(m, "id", None), Addresses):
            del m.id, m.hash


# --------------------------------------------------------------------------

class Task:
    __slots__ = ("idx", "fn", "lock", "state", "base", "n0", "wake", "on",
                 "timed_out", "irq", "irq_exc", "irqs", "prio", "local",
                 "error")

    def __init__(self, idx, fn):
        self.idx = idx
        self.fn = fn
        self.lock = REAL_LOCK()
        self.lock.acquire()
        self.state = "ready"
        self.base = 0           # steps taken before the current slice
        self.n0 = 0             # global step at the start of the slice
        self.wake = FAR
        self.on = None
        self.timed_out = False
        self.irq = FAR          # task step at which to interrupt
        self.irq_exc = None
        self.irqs = 0
        self.prio = 0
        self.local = None
        self.error = None


class Sim:
    """One simulated execution.

    policy (JSON): {"kind": ..., "seed": n, ...} or
    {"kind": "explicit", "decisions": [[task, step, to], ...]}.
    """

    def __init__(self, policy, budget=20_000_000):
        self.policy = policy
        self.kind = policy["kind"]
        self.rng = random.Random(policy.get("seed", 0))
        self.budget = budget
        self.st = Stepper(self._on_alarm, self._on_watch)
        self.next_sw = FAR
        self.cur = None
        self.tasks = []
        self.decisions = []
        self.points = []
        self.preemptions = 0
        self.offset = 0.0
        self.rate = policy.get("rate", 1e-6)
        self.jumps = policy.get("jumps", ())
        self.main = REAL_LOCK()
        self.main.acquire()
        self.fatal = None
        self.lock_ops = 0
        self.lock_waits = 0
        self.irqs = 0
        self.races = 0
        self.sleeps = 0
        self.time_jumps = 0
        self.seq = 0
        self.explicit = None
        self.digest = hashlib.sha256()
        if self.kind == "explicit":
            self.explicit = {}
            for t, s, to in policy["decisions"]:
                self.explicit.setdefault(t, []).append((s, to))
            for v in self.explicit.values():
                v.sort()
        if self.kind == "hot" and _CODES:
            c = _CODES[policy["code"] % len(_CODES)]
            self.st.watch([(c, bitmap(c))])
        elif self.kind == "race":
            self.st.watch(_RACE)

    @property
    def n(self):
        return self.st.n

    # -- time

    def now(self, which=1):
        """Simulated seconds: 1 monotonic clock, 2 wall clock."""
        t = self.offset + self.n * self.rate
        for j in self.jumps:
            if j[0] <= self.n:
                t += j[which]
        return t

    def stamp(self):
        self.seq += 1
        return self.seq

    def log(self, *what):
        self.digest.update(repr(what).encode("utf-8", "replace"))

    # -- running

    def run(self, fns):
        global _CUR
        if _CUR is not None:
            raise HarnessError("nested simulation")
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        if self.kind == "pct":
            order = list(range(len(fns)))
            self.rng.shuffle(order)
            for t, p in zip(self.tasks, order):
                t.prio = p + 100
            n = max(1, self.policy.get("length", 1000))
            self.pct = sorted(self.rng.randrange(n)
                              for _ in range(self.policy.get("depth", 3)))
        _CUR = self
        self._callback()
        for t in self.tasks:
            _thread.start_new_thread(self._body, (t,))
        first = self._pick(None)
        self.first = first.idx
        self._resume(first)
        first.lock.release()
        self.main.acquire()
        self.cur = None
        _CUR = None
        sys.monitoring.register_callback(
            TOOL, sys.monitoring.events.INSTRUCTION, None)

    def _callback(self):
        sys.monitoring.register_callback(
            TOOL, sys.monitoring.events.INSTRUCTION, self.st)

    def _body(self, t):
        t.lock.acquire()
        try:
            t.fn(t)
        except SimError as e:
            if self.fatal is None:
                self.fatal = e
        except BaseException as e:     # noqa: B902 - reported by the caller
            t.error = e
        t.state = "done"
        self.st.n += 1
        self._suspend(t)
        if self.fatal is not None:
            self._finish()
            return
        try:
            nxt = self._next_ready(t)
        except SimError as e:
            self.fatal = e
            nxt = None
        if nxt is None:
            self._finish()
            return
        self.decisions.append([t.idx, t.base, nxt.idx])
        self._resume(nxt)
        nxt.lock.release()

    def _finish(self):
        self.cur = None
        self.st.alarm = FAR
        self.main.release()

    def steps_of(self, t):
        if t is self.cur:
            return t.base + self.n - t.n0
        return t.base

    def _suspend(self, t):
        t.base += self.n - t.n0
        t.n0 = self.n

    def _resume(self, t):
        self.cur = t
        t.n0 = self.n
        self._plan_switch(t)

    # -- policy

    def _plan_switch(self, t):
        k = self.kind
        if k == "uniform":
            gap = max(1, int(self.rng.expovariate(1.0 / self.policy["mean"])))
        elif k == "race":
            gap = max(1, int(self.rng.expovariate(1.0 / self.policy["mean"])))
        elif k == "rr":
            gap = self.policy["quantum"]
        elif k == "burst":
            # long undisturbed stretches with dense switching in between
            if self.rng.random() < 0.2:
                gap = self.rng.randrange(200, 1500)
            else:
                gap = self.rng.randrange(1, 12)
        elif k == "pct":
            gap = FAR
            while self.pct and self.pct[0] <= self.n:
                self.pct.pop(0)
            if self.pct:
                gap = self.pct[0] - self.n
        elif k == "explicit":
            q = self.explicit.get(t.idx, [])
            while q and q[0][0] <= t.base:
                q.pop(0)
            gap = q[0][0] - t.base if q else FAR
        else:
            gap = FAR
        self.next_sw = self.n + gap if gap < FAR else FAR
        self._set_alarm(t)

    def _set_alarm(self, t):
        a = min(self.next_sw, self.budget + 1)
        if t.irq < FAR:
            a = min(a, self.n + max(1, t.irq - self.steps_of(t)))
        self.st.alarm = a

    def _runnable(self):
        return [t for t in self.tasks if t.state == "ready"]

    def _pick(self, cur):
        """Chooses among ready tasks (cur excluded when it cannot run)."""
        rd = [t for t in self._runnable() if t is not cur]
        if not rd:
            return None
        if self.explicit is not None:
            if cur is not None:
                st = self.steps_of(cur)
                for s, to in self.explicit.get(cur.idx, []):
                    if s == st:
                        for t in rd:
                            if t.idx == to:
                                return t
            else:
                for t in rd:
                    if t.idx == self.policy.get("first", 0):
                        return t
            return rd[0]
        if self.kind == "pct":
            return max(rd, key=lambda t: t.prio)
        if self.kind in ("rr", "serial"):
            if cur is None:
                return rd[0]
            for t in rd:
                if t.idx > cur.idx:
                    return t
            return rd[0]
        return rd[self.rng.randrange(len(rd))]

    def _next_ready(self, cur):
        """Next task when `cur` cannot continue; moves the clock if needed."""
        while True:
            nxt = self._pick(cur)
            if nxt is not None:
                return nxt
            if cur is not None and cur.state == "ready":
                return cur
            sl = [t for t in self.tasks
                  if t.state in ("sleep", "blocked") and t.wake < FAR]
            if not sl:
                if any(t.state == "blocked" for t in self.tasks):
                    raise Deadlock("every thread waits: " + ", ".join(
                        "task %d" % t.idx for t in self.tasks
                        if t.state == "blocked"))
                return None
            w = min(t.wake for t in sl)
            if w > self.now():
                self.offset += w - self.now()
                self.time_jumps += 1
            for t in sl:
                if t.wake <= self.now() + 1e-9:
                    t.timed_out = t.state == "blocked"
                    t.state = "ready"
                    t.wake = FAR

    def _on_alarm(self, code, off):
        t = self.cur
        if t is None:
            return
        if self.n > self.budget:
            self.st.alarm = 0
            raise Livelock("step budget %d exhausted" % self.budget)
        if t.irq < FAR and self.steps_of(t) >= t.irq:
            if off < 0 or off in _IRQ_OFF.get(id(code), ()):
                exc, t.irq, t.irq_exc = t.irq_exc, FAR, None
                self.irqs += 1
                t.irqs += 1
                self._set_alarm(t)
                self.log("irq", t.idx, self.steps_of(t))
                self.points.append((_CODE_ID.get(id(code), -1), off))
                raise exc
        if self.n >= self.next_sw:
            self._preempt(t, code, off)
            return
        self._set_alarm(t)

    def _on_watch(self, code, off):
        t = self.cur
        if t is not None and self.rng.random() < self.policy["p"]:
            self.races += 1
            self._preempt(t, code, off)

    def _preempt(self, t, code, off):
        if self.kind == "pct":
            t.prio = min(x.prio for x in self.tasks) - 1
            nxt = self._pick(None)
            if nxt is t:
                nxt = None
        else:
            nxt = self._pick(t)
        if nxt is None:
            self._plan_from(t)
            return
        self.preemptions += 1
        self.points.append((_CODE_ID.get(id(code), -1), off))
        self._switch(t, nxt)

    def _plan_from(self, t):
        # nothing to switch to: plan the next attempt
        self._suspend(t)
        self._plan_switch(t)

    def _switch(self, t, nxt):
        self._suspend(t)
        self.decisions.append([t.idx, t.base, nxt.idx])
        self.log("sw", t.idx, t.base, nxt.idx)
        self._resume(nxt)
        nxt.lock.release()
        t.lock.acquire()
        # running again: cur was set by whoever resumed us

    # -- services for tasks

    def yield_point(self, kind):
        """A user callback is being entered: counts as a step."""
        t = self.cur
        if t is None:
            return
        self.st.n += 1
        if self.kind == "cb" and self.rng.random() < self.policy["p"]:
            nxt = self._pick(t)
            if nxt is not None:
                self.preemptions += 1
                self.points.append((kind, 0))
                self._switch(t, nxt)
                return
        if self.st.n >= self.st.alarm:
            self._on_alarm(kind, -1)

    def set_irq(self, t, after, exc):
        """Interrupt the task `after` of its steps from now."""
        t.irq = self.steps_of(t) + after
        t.irq_exc = exc
        self._set_alarm(t)

    def clear_irq(self, t):
        t.irq = FAR
        t.irq_exc = None
        self._set_alarm(t)

    def _wait(self, t):
        self.st.n += 1
        self._suspend(t)
        nxt = self._next_ready(t)
        if nxt is None:
            raise Deadlock("nothing can run")
        if nxt is t:
            self._resume(t)
            return
        self.decisions.append([t.idx, t.base, nxt.idx])
        self.log("wt", t.idx, t.base, nxt.idx)
        self._resume(nxt)
        nxt.lock.release()
        t.lock.acquire()

    def sleep_until(self, when):
        t = self.cur
        if when <= self.now():
            return
        self.sleeps += 1
        t.state = "sleep"
        t.wake = when
        self._wait(t)

    def block(self, on, wake=FAR):
        """Waits for wake(on); False when the timeout passed first."""
        t = self.cur
        t.state = "blocked"
        t.on = on
        t.wake = wake
        t.timed_out = False
        self._wait(t)
        t.on = None
        return not t.timed_out

    def wake(self, on):
        for t in self.tasks:
            if t.state == "blocked" and t.on is on:
                t.state = "ready"
                t.wake = FAR

    # -- reporting

    def explicit_policy(self):
        """The schedule of this execution, as a replayable policy."""
        return dict(
            {k: self.policy[k] for k in ("rate", "jumps")
             if k in self.policy}, kind="explicit", first=self.first,
            decisions=[list(d) for d in self.decisions])

    def stats(self):
        return {
            "steps": self.n, "switches": len(self.decisions),
            "preemptions": self.preemptions, "irqs": self.irqs,
            "races": self.races,
            "sim_time": self.offset + self.n * min(self.rate, 1e-6), "sleeps": self.sleeps,
            "time_jumps": self.time_jumps,
            "clock_steps": sum(
                j[0] <= self.n for j in self.jumps),
            "odd_clock_rate": int(self.rate != 1e-6), "lock_ops": self.lock_ops,
            "lock_waits": self.lock_waits,
        }


def current():
    return _CUR


def random_clock(rng):
    """Slow and fast nodes, clock steps: [step, monotonic, wall]."""
    c = {}
    if rng.random() < 0.7:
        c["rate"] = rng.choice([1e-9, 1e-5, 1e-4, 1e-3, 1e-2, 1.0])
    if not c or rng.random() < 0.4:
        c["jumps"] = [[rng.choice([0, rng.randrange(400),
                                   rng.randrange(5000)]),
                       rng.choice([0, 0.1, 5, 3600]),
                       rng.choice([-86400, -1, -0.01, 0.5, 7200])]
                      for _ in range(rng.choice([1, 2]))]
    return c


def random_policy(rng, length=2000, serial=0.03):
    """Swarm choice of a schedule policy."""
    r = rng.random()
    seed = rng.randrange(1 << 32)
    if r < serial:
        return {"kind": "serial", "seed": seed}
    k = rng.choice(["uniform", "uniform", "uniform", "burst", "rr", "pct",
                    "cb", "hot", "race", "race"])
    if k == "race":
        return {"kind": k, "seed": seed, "p": rng.choice([0.03, 0.1, 0.4, 1.0]),
                "mean": rng.choice([60, 300, 2000])}
    if k == "uniform":
        return {"kind": k, "seed": seed,
                "mean": rng.choice([2, 5, 15, 50, 150, 500])}
    if k == "rr":
        return {"kind": k, "seed": seed,
                "quantum": rng.choice([1, 2, 3, 7, 20, 61])}
    if k == "pct":
        return {"kind": k, "seed": seed, "length": length,
                "depth": rng.choice([1, 2, 3, 5])}
    if k == "cb":
        return {"kind": k, "seed": seed, "p": rng.choice([0.2, 0.5, 1.0])}
    if k == "hot":
        return {"kind": k, "seed": seed, "code": rng.randrange(100000),
                "p": rng.choice([0.05, 0.3, 1.0])}
    return {"kind": k, "seed": seed}
