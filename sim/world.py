"""The simulated world: parsers built from grammar descriptions, streams that
arrive over simulated time, user callbacks, sessions that run operations, and
the faults injected into them.  Everything here runs in a freshly forked child
of a process that has imported the library and done nothing else."""

import _thread
import gc
import os
import signal
import sys
import threading
from collections.abc import Sequence

from . import build, core, lang

SEMANTIC = ("fmap", "bind", "op", "apply", "purefn", "recf")


class UserError(Exception):
    pass


class UserBase(BaseException):
    pass


EXCS = {
    "UserError": UserError, "UserBase": UserBase, "ValueError": ValueError,
    "TypeError": TypeError, "KeyError": KeyError, "IndexError": IndexError,
    "AttributeError": AttributeError, "RuntimeError": RuntimeError,
    "AssertionError": AssertionError, "OSError": OSError,
    "TimeoutError": TimeoutError, "MemoryError": MemoryError,
    "RecursionError": RecursionError, "KeyboardInterrupt": KeyboardInterrupt,
    "SystemExit": SystemExit, "GeneratorExit": GeneratorExit,
    "UnicodeDecodeError": None, "NotImplementedError": NotImplementedError,
    "ZeroDivisionError": ZeroDivisionError, "LookupError": LookupError,
    "EOFError": EOFError, "StopAsyncIteration": StopAsyncIteration,
    "ArithmeticError": ArithmeticError, "ParseError": None, "LexError": None,
    "re.error": None, "InterruptedError": InterruptedError,
    "BlockingIOError": BlockingIOError, "Exception": Exception,
    "BaseException": BaseException, "NameError": NameError,
}
CALLBACK_EXCS = sorted(EXCS)
STREAM_EXCS = sorted(set(EXCS) - {"IndexError", "LookupError"})
IRQ_EXCS = ["KeyboardInterrupt", "MemoryError", "TimeoutError", "SystemExit",
            "UserBase"]


def make_exc(name, tag):
    L = build.lib()
    if name == "UnicodeDecodeError":
        return UnicodeDecodeError("utf-8", b"\xff", 0, 1, "injected %s" % tag)
    if name == "ParseError":
        item = sys.modules["reparsec.types"].ErrorItem(
            L.Loc(77, 7, 7), "inj", ["injected %s" % tag])
        e = L.ParseError([item])
        e.injected = True
        return e
    if name == "LexError":
        return L.lexer.LexError(L.Loc(77, 7, 7))
    if name == "re.error":
        import re
        return re.error("injected %s" % tag)
    return EXCS[name]("injected %s" % tag)


class Op:
    """State of one running operation."""

    __slots__ = ("count", "faults", "fired", "fired_at", "after", "log",
                 "nest", "parent", "kinds", "irq_exc", "irq0", "keeplog")

    def __init__(self, spec, parent=None, keeplog=True):
        self.count = 0
        self.faults = {}
        self.fired = None
        self.fired_at = None
        self.after = []
        self.log = []
        self.nest = {}
        self.parent = parent
        self.kinds = {}
        self.irq_exc = None
        self.irq0 = 0
        self.keeplog = keeplog
        for f in spec.get("faults", ()):
            if f["at"] == "cb":
                self.faults[(f.get("kind"), f["n"])] = f["exc"]
        for x in spec.get("nest", ()):
            self.nest.setdefault(x["n"], []).append(x["op"])


class Runtime:
    """What every user callback of the built parsers calls."""

    def __init__(self, world):
        self.w = world
        self.fired = {}
        self.tags = 0

    def cb(self, kind, i, args):
        sim = core.current()
        t = sim.cur if sim is not None else None
        op = t.local if t is not None else None
        if op is None:
            return
        op.count += 1
        n = op.count
        op.kinds[kind] = op.kinds.get(kind, 0) + 1
        if op.fired is not None or (op.irq_exc is not None and
                                    t.irqs > op.irq0):
            op.after.append((kind, str(i)))
        if op.keeplog:
            if kind in SEMANTIC:
                op.log.append((kind, str(i)) +
                              tuple(lang.norm(a) for a in args))
        exc = None
        if op.faults:
            exc = op.faults.pop((None, n), None) or \
                op.faults.pop((kind, op.kinds[kind]), None)
        sim.yield_point(kind)
        if exc is not None:
            if kind in ("read", "len") and exc in ("IndexError",
                                                   "LookupError"):
                exc = "OSError"
            self.tags += 1
            e = make_exc(exc, self.tags)
            op.fired = e
            op.fired_at = (kind, str(i), n)
            key = kind + ":" + exc
            self.fired[key] = self.fired.get(key, 0) + 1
            sim.log("fault", t.idx, n, key)
            raise e
        nest = op.nest.pop(n, None)
        if nest is not None:
            for spec in nest:
                self.fired["nest:" + kind] = \
                    self.fired.get("nest:" + kind, 0) + 1
                self.w.nested.append((t.idx, n, kind, self.w.do(t, spec)))


class LazySeq(Sequence):
    """A sequence whose elements arrive over simulated time.

    at: arrival time of each element (missing: present at once); flaky: reads
    of the element that fail before it can be read."""

    def __init__(self, rt, items, at=None, flaky=None, exc="OSError"):
        self.rt = rt
        self.items = items
        self.at = at
        self.flaky = dict(flaky or {})
        self.exc = exc
        self.demand = set()
        self.failed = 0

    def __len__(self):
        self.rt.cb("len", "len", ())
        return len(self.items)

    def __getitem__(self, i):
        if isinstance(i, slice):
            for j in range(*i.indices(len(self.items))):
                self[j]
            return self.items[i]
        if -len(self.items) <= i < 0:
            i += len(self.items)
        self.rt.cb("read", i, ())
        if not 0 <= i < len(self.items):
            raise IndexError(i)
        self.demand.add(i)
        sim = core.current()
        if self.at is not None and i < len(self.at):
            sim.sleep_until(self.at[i])
        if self.flaky.get(i, 0) > 0:
            self.flaky[i] -= 1
            self.failed += 1
            self.rt.fired["flaky-read"] = self.rt.fired.get(
                "flaky-read", 0) + 1
            raise make_exc(self.exc, "flaky %d" % i)
        return self.items[i]


def depth():
    n, f = 0, sys._getframe()
    while f is not None:
        n += 1
        f = f.f_back
    return n


def own_thread(fn):
    """Runs fn in a thread of its own, which ends with it.  For the scheduler
    it is still the same caller: this one only waits."""
    box = []
    done = core.REAL_LOCK()
    done.acquire()

    def body():
        me = threading.Thread()
        threading._active[_thread.get_ident()] = me
        try:
            box.append((True, fn()))
        except BaseException as e:
            box.append((False, e))
        finally:
            del threading._active[_thread.get_ident()]
            done.release()
    _thread.start_new_thread(body, ())
    done.acquire()
    ok, r = box.pop()
    if not ok:
        raise r
    return r


def process_state():
    """Settings of the process that are not the library's to change."""
    return {
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "callbacks of the collector": len(gc.callbacks),
        "trace function": (sys.gettrace(), threading.gettrace()),
        "profile function": (sys.getprofile(), threading.getprofile()),
        "hooks": (sys.excepthook, sys.unraisablehook, threading.excepthook,
                  sys.displayhook, sys.breakpointhook),
        "interrupt handler": signal.getsignal(signal.SIGINT),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "module path": list(sys.path),
        "output": (sys.stdout, sys.stderr, sys.stdin),
        "largest number in text": sys.get_int_max_str_digits(),
    }


class World:
    def __init__(self, plan):
        self.plan = plan
        self.rt = Runtime(self)
        self.nested = []
        self.parsers = []
        self.inputs = []
        self.streams = {}
        self.handles = {}
        self.results = {}
        self.extra = {}
        self.builders = []

    # -- set up

    def setup(self):
        L = build.lib()
        if self.plan.get("gc"):
            gc.enable()
        else:
            gc.disable()
        for b in self.plan.get("builds", []):
            self.add_parser(b)
        for i in self.plan.get("inputs", []):
            self.inputs.append(build.make_input(
                i["kind"], i["items"], fix_locs(i.get("locs")),
                i.get("cont", "list")))
        return L

    def add_parser(self, b):
        g = self.plan["grammars"][b["g"]]
        bl = build.Builder(g, self.rt, b.get("style", 0))
        self.builders.append(bl)
        self.parsers.append(bl.build())

    def stream(self, spec):
        i = spec["i"]
        inp = self.inputs[i]
        style = self.plan["builds"][spec["b"]].get("style", 0) \
            if "b" in spec else 0
        items = style & 4 and inp.kind in ("seq",)
        if spec.get("own"):
            return self.new_stream(inp, items, spec)
        key = (i, bool(items), bool(spec.get("lazy")))
        if key not in self.streams:
            self.streams[key] = self.new_stream(inp, items, spec)
        return self.streams[key]

    def new_stream(self, inp, items, spec):
        if inp.kind in ("str0", "strlc"):
            # a distinct but equal string object
            return "".join(list(inp.items)) if spec.get("own") else inp.items
        st = build.real_stream(inp)
        if items:
            st = build.CONTAINERS[
                inp.cont if inp.cont in ("tuple", "user") else
                "list"]([lang.Item(c, self.rt.cb) for c in st])
        if spec.get("lazy"):
            z = spec["lazy"]
            return LazySeq(self.rt, st, z.get("at"),
                           {int(k): v for k, v in
                            (z.get("flaky") or {}).items()},
                           z.get("exc", "OSError"))
        return st

    # -- operations

    def do(self, t, spec):
        if spec.get("thread"):
            return own_thread(lambda: self.do_here(t, spec))
        return self.do_here(t, spec)

    def do_here(self, t, spec):
        sim = core.current()
        op = Op(spec, t.local)
        prev, t.local = t.local, op
        s0 = sim.steps_of(t)
        t0 = sim.stamp()
        lim = None
        for f in spec.get("faults", ()):
            if f["at"] == "irq":
                self.rt.tags += 1
                e = make_exc(f["exc"], self.rt.tags)
                op.irq_exc, op.irq0 = e, t.irqs
                sim.set_irq(t, f["n"], e)
            elif f["at"] == "stack":
                lim = sys.getrecursionlimit()
        irqs = t.irqs
        try:
            if lim is not None:
                n = [f["n"] for f in spec["faults"] if f["at"] == "stack"][0]
                sys.setrecursionlimit(depth() + 8 + n)
            res = getattr(self, "op_" + spec["k"])(t, spec, op)
        except core.SimError:
            raise
        except BaseException as e:
            if lim is not None:
                sys.setrecursionlimit(lim)
            if e is op.irq_exc:
                op.fired = e
                op.fired_at = ("irq", type(e).__name__, 0)
                self.rt.fired["irq:" + type(e).__name__] = \
                    self.rt.fired.get("irq:" + type(e).__name__, 0) + 1
            if op.fired is not None and e is op.fired:
                res = ("fault", type(e).__name__)
            else:
                res = ("exc", type(e).__name__, str(e)[:200])
        finally:
            if lim is not None:
                sys.setrecursionlimit(lim)
            if any(f["at"] == "irq" for f in spec.get("faults", ())):
                sim.clear_irq(t)
            t.local = prev
        if lim is not None and res[0] == "exc" and res[1] == "RecursionError":
            self.rt.fired["stack"] = self.rt.fired.get("stack", 0) + 1
        out = {"res": res, "t0": t0, "t1": sim.stamp(), "cbs": op.count,
               "steps": sim.steps_of(t) - s0, "log": op.log,
               "kinds": op.kinds, "fired": op.fired_at,
               "irq": t.irqs > irqs,
               "stack": lim is not None and res[:2] == (
                   "exc", "RecursionError"),
               "after": op.after, "tag": spec.get("tag")}
        sim.log("op", t.idx, spec["k"], res, op.log)
        return out

    def locs(self, spec, inp):
        """Optional user supplied location callbacks."""
        if not spec.get("cl"):
            return {}
        rt = self.rt

        def get_loc(loc, s, p):
            rt.cb("get_loc", p, ())
            return build.lib().Loc(*inp.loc(p))

        def fmt_loc(l):
            rt.cb("fmt_loc", l.pos, ())
            return "{}:{}".format(l.line + 1, l.col + 1) \
                if inp.kind in ("strlc", "tok") else str(l.pos)
        return {"get_loc": get_loc, "fmt_loc": fmt_loc}

    def run_parse(self, spec, stream=None):
        inp = self.inputs[spec["i"]]
        p = self.parsers[spec["b"]]
        st = self.stream(spec) if stream is None else stream
        return build.call_parse(p, st, inp.kind, spec.get("rec", False),
                                spec.get("mi"), **self.locs(spec, inp))

    def op_parse(self, t, spec, op):
        r = self.run_parse(spec)
        if "keep" in spec:
            self.handles[spec["keep"]] = r
        return build.observe(r, spec.get("rec", False))

    def op_gc(self, t, spec, op):
        gc.collect()
        return ("ok",)

    # -- the run

    def session(self, k, ops):
        def body(t):
            out = self.results[k] = []
            for spec in ops:
                for _ in range(spec.get("rep", 1) - 1):
                    self.do(t, spec)
                out.append(self.do(t, spec))
        return body


def fix_locs(locs):
    if locs is None:
        return None
    return [(tuple(a), tuple(b)) for a, b in locs]


def execute(plan, cls=World):
    """Runs one plan to the end; returns plain data."""
    core.seed(plan.get("seed", 0))
    w = cls(plan)
    try:
        w.setup()
    except Exception as e:
        # building a valid parser failed inside the library
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        if not tb.tb_frame.f_code.co_filename.startswith(core.SRC):
            raise
        return {
            "fatal": ("SetupError", repr(e)[:500]), "ops": {}, "nested": [],
            "fired": {}, "stats": dict.fromkeys((
                "steps", "switches", "preemptions", "irqs", "sim_time", "races",
                "sleeps", "time_jumps", "clock_steps", "odd_clock_rate",
                "lock_ops", "lock_waits"), 0),
            "policy": dict(plan["policy"], decisions=[]), "points": [],
            "extra": {}, "digest": "setup"}
    sim = core.Sim(plan["policy"], plan.get("budget", 20_000_000))
    before = process_state()
    sim.run([w.session(k, ops) for k, ops in enumerate(plan["tasks"])])
    for t in sim.tasks:
        if t.error is not None:
            raise t.error
    now = process_state()
    changed = [[k, repr(before[k])[:100], repr(now[k])[:100]]
               for k in now if now[k] != before[k]]
    if changed and sim.fatal is None:
        w.extra["process"] = changed
    fatal = None
    if sim.fatal is not None:
        fatal = (type(sim.fatal).__name__, str(sim.fatal))
    return {
        "fatal": fatal, "ops": w.results, "nested": w.nested,
        "fired": w.rt.fired, "stats": sim.stats(),
        "policy": sim.explicit_policy(), "points": sim.points[:400],
        "extra": w.extra, "digest": sim.digest.hexdigest(),
    }
