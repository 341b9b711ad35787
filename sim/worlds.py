"""Worlds for the properties that need more than parse operations."""

import copy
import gc
import pickle
import re
import sys

from . import build, core, gen, lang
from .world import LazySeq, World, execute, make_exc


# --------------------------------------------------------------------------
# C05: results are read, mapped, mangled

class ResultWorld(World):
    mapped = 0

    def setup(self):
        super().setup()
        for spec in self.plan.get("prelude", []):
            self.keep(spec, self.run_parse(spec))

    def keep(self, spec, r):
        self.handles[spec["keep"]] = (r, self.last_stream)

    def stream(self, spec):
        self.last_stream = super().stream(spec)
        return self.last_stream

    def op_parse(self, t, spec, op):
        st = self.stream(spec)
        r = self.run_parse(spec, st)
        if "keep" in spec:
            self.handles[spec["keep"]] = (r, st)
        return build.observe(r, spec.get("rec", False))

    def op_read(self, t, spec, op):
        x = self.handles.get(spec["h"])
        if x is None:
            return ("missing",)
        L = build.lib()
        try:
            v = x[0].unwrap(True) if spec.get("rec") else x[0].unwrap()
        except L.ParseError as e:
            if getattr(e, "injected", False):
                raise
            sent = ship(e, spec["ship"]) if "ship" in spec else e
            if str(sent) != str(e) or type(sent) is not type(e):
                return ("sent", str(e), str(sent))
            out = ("perr", build.report(sent))
            if spec.get("mangle"):
                mangle(e, spec["mangle"])
            return out
        return ("val", lang.norm(v))

    def op_map(self, t, spec, op):
        x = self.handles.get(spec["h"])
        if x is None:
            return ("missing",)
        i, rt = spec["f"], self.rt

        def f(v):
            rt.cb("map", i, ())
            # every call gives another value: the result must keep one
            self.mapped += 1
            return ("m" + i, self.mapped, v)
        self.handles[spec["to"]] = (x[0].fmap(f), x[1])
        return ("mapped",)

    def op_mangle_input(self, t, spec, op):
        x = self.handles.get(spec["h"])
        if x is None or not isinstance(x[1], list):
            return ("missing",)
        del x[1][:]
        return ("ok",)


def ship(x, how):
    """What another process gets that is sent this object."""
    if how == "copy":
        return copy.copy(x)
    if how == "deepcopy":
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, how))


SHIP = ("copy", "deepcopy", 0, 1, 2, 3, 4, 5)


def mangle(e, how):
    """What a careless caller may do to the report it was given."""
    if how == "clear":
        e.errors.clear()
    elif how == "expected":
        for it in e.errors:
            it.expected.append("junk")
            it.expected.reverse()
    elif how == "fields":
        for it in e.errors:
            it.loc_str = "??"
            it.op = None
            it.expected = ["junk"]
            it.loc = None
    elif how == "extend":
        e.errors.extend(list(e.errors))
        e.errors.reverse()


def execute_results(plan):
    return execute(plan, ResultWorld)


# --------------------------------------------------------------------------
# C06, C13: parsers are composed while others parse

class PoolBuilder(build.Builder):
    """Builds nodes whose leaves may be ["pool", id] (existing parsers)."""

    def __init__(self, world, style=0):
        super().__init__({"rules": {}, "start": None}, world.rt, style)
        self.world = world

    def node(self, n):
        if n[0] == "pool":
            p = self.world.pool.get(str(n[1]))
            if p is None:
                raise Missing()
            return p
        if n[0] == "ref":
            return self.world.delays[n[1]]
        if n[0] in DIRECT:
            # as plainly as users do, so that addresses come round again
            return DIRECT[n[0]](self, n)
        if n[0] == "badop":
            return BadParser("ValueError")
        if n[0] == "ext":
            return self.node(n[1]).then(self.node(n[2]))
        if n[0] == "extapply":
            i, rt = n[1], self.rt

            def ap(*vs):
                rt.cb("apply", i, vs)
                return lang.act_apply(i, *vs)
            return self.node(n[2]).apply(ap)
        return self.make(n)


def direct_then(b, n):
    if len(n[1]) != 2 or b.style:
        return b.make(n)
    t = b.node(n[1][0])
    if not isinstance(t, build.lib().r.TupleParser):
        return b.make(n)
    return t.then(b.node(n[1][1]))


DIRECT = {
    "sym": lambda b, n: build.lib().seq.sym(n[1], n[2])
    if isinstance(n[1], str) else b.make(n),
    "lit": lambda b, n: build.lib().sl.literal(n[1]),
    "tok": lambda b, n: build.lib().lexer.token(n[1]),
    "then": direct_then,
}


class Missing(Exception):
    pass


class BadParser:
    """A definition that cannot be used."""

    def __init__(self, exc):
        self.__dict__["bad_exc"] = exc

    def to_fns(self):
        raise make_exc(self.bad_exc, "definition")

    def __getattr__(self, name):
        raise make_exc(self.__dict__["bad_exc"], "definition")


class PoolWorld(World):
    def setup(self):
        super().setup()
        L = build.lib()
        self.pool = {}
        self.delays = {r: L.r.Delay() for r in self.plan.get("delays", [])}
        for spec in self.plan.get("prelude", []):
            self.compose(spec)

    def compose(self, spec):
        b = PoolBuilder(self, spec.get("style", 0))
        for n in spec.get("also", ()):
            b.node(n)
        self.pool[str(spec["out"])] = b.node(spec["node"])

    def op_compose(self, t, spec, op):
        try:
            self.compose(spec)
        except Missing:
            return ("missing",)
        return ("ok",)

    def op_define(self, t, spec, op):
        how = spec["how"]
        d = self.delays[spec["d"]]
        if how == "none":
            d.define(None)
        elif how == "bad":
            d.define(BadParser(spec.get("exc", "ValueError")))
        else:
            b = PoolBuilder(self, spec.get("style", 0))
            p = b.node(spec["node"])
            core.current().yield_point("define")
            d.define(p)
        return ("ok",)

    def op_parse(self, t, spec, op):
        if "d" in spec:
            p = self.delays[spec["d"]]
        else:
            p = self.pool.get(str(spec["p"]))
        if p is None:
            return ("missing",)
        inp = self.inputs[spec["i"]]
        st = self.stream(spec)
        r = build.call_parse(p, st, inp.kind, spec.get("rec", False),
                             spec.get("mi"), **self.locs(spec, inp))
        return build.observe(r, spec.get("rec", False))


def execute_pool(plan):
    return execute(plan, PoolWorld)


# --------------------------------------------------------------------------
# C09: elements arrive over time, reads fail

class LazyWorld(World):
    def setup(self):
        super().setup()
        self.lazy = []
        for z in self.plan["lazies"]:
            inp = self.inputs[z["i"]]
            st = build.real_stream(inp)
            self.lazy.append(LazySeq(
                self.rt, st, z.get("at"),
                {int(k): v for k, v in (z.get("flaky") or {}).items()},
                z.get("exc", "OSError")))

    def op_attempts(self, t, spec, op):
        z = self.lazy[spec["z"]]
        inp = self.inputs[self.plan["lazies"][spec["z"]]["i"]]
        n = 0
        errs = []
        while True:
            n += 1
            d0 = len(errs)
            try:
                r = build.call_parse(self.parsers[spec["b"]], z, inp.kind,
                                     False, None)
                res = build.observe(r, False)
                break
            except Exception as e:
                if "injected flaky" not in str(e):
                    raise
                errs.append(type(e).__name__)
            if n >= spec["max"]:
                res = ("gave-up",)
                break
            assert len(errs) > d0
        return ("done", res, n, tuple(sorted(z.demand)), core.current().now(),
                z.failed)


def execute_lazy(plan):
    return execute(plan, LazyWorld)


# --------------------------------------------------------------------------
# C11: tokenising

def tok_data(t):
    return (t.kind, t.value, tuple(t.start), tuple(t.end))


class LexWorld(World):
    def setup(self):
        super().setup()
        self.specs = [re.compile(s) for s in self.plan["specs"]]
        self.iters = {}

    def op_split(self, t, spec, op):
        L = build.lib()
        src = self.plan["texts"][spec["i"]]
        try:
            ts = L.lexer.split_tokens(src, self.specs[spec["s"]])
            if "ship" in spec:
                if ship(ts, spec["ship"]) != ts:
                    return ("sent", repr(ts))
                ts = ship(ts, spec["ship"])
        except L.lexer.LexError as e:
            if getattr(e, "injected", False):
                raise
            if "ship" in spec:
                e = ship(e, spec["ship"])
            return ("lexerr", tuple(e.loc), str(e))
        out = ("toks", tuple(tok_data(x) for x in ts))
        if spec.get("mangle"):
            del ts[:]
        return out

    def op_iter(self, t, spec, op):
        """Pull up to n tokens from an iterator that stays open."""
        L = build.lib()
        f = getattr(L.lexer, "iter_tokens", None)
        if f is None:
            return ("no-iterator",)
        key = spec["it"]
        if key not in self.iters:
            try:
                it = iter(f(self.plan["texts"][spec["i"]],
                            self.specs[spec["s"]]))
            except TypeError:
                return ("no-iterator",)
            self.iters[key] = [it, []]
        it, got = self.iters[key]
        try:
            for _ in range(spec["n"]):
                got.append(tok_data(next(it)))
                core.current().yield_point("token")
        except StopIteration:
            return ("end", tuple(got))
        except L.lexer.LexError as e:
            if getattr(e, "injected", False):
                raise
            return ("lexerr", tuple(got), tuple(e.loc))
        if spec.get("close"):
            if hasattr(it, "close"):
                it.close()
            del self.iters[key]
        return ("part", tuple(got))


def execute_lex(plan):
    return execute(plan, LexWorld)


# --------------------------------------------------------------------------
# C14: a long history first

class HistoryWorld(World):
    serial = 0

    def setup(self):
        super().setup()
        if self.plan.get("gc"):
            gc.set_threshold(*self.plan["gc"])
        if self.plan.get("warm"):
            # the parsers again, in the opposite order; the later ones are
            # used, the earlier ones stay around
            self.spare = self.parsers
            n = len(self.parsers)
            self.parsers = []
            for b in reversed(self.plan["builds"]):
                self.add_parser(b)
            self.parsers.reverse()
            assert len(self.parsers) == n

    def op_junk(self, t, spec, op):
        """A parser that is built, used once and thrown away."""
        b = self.plan["builds"][spec["b"]]
        g = self.plan["grammars"][b["g"]]
        if spec.get("fresh"):
            self.serial += 1
            g = gen.fresh(g, "%06d" % self.serial)
        bl = build.Builder(g, self.rt, b.get("style", 0))
        p = bl.build()
        inp = self.inputs[spec["i"]]
        st = self.stream(dict(spec, own=True))
        build.observe(build.call_parse(
            p, st, inp.kind, spec.get("rec", False), spec.get("mi")),
            spec.get("rec", False))
        return ("ok",)


def execute_history(plan):
    return execute(plan, HistoryWorld)


# --------------------------------------------------------------------------
# C18: what stays allocated in a process that goes on and on

class ServiceWorld(HistoryWorld):

    def setup(self):
        super().setup()
        core.real_id()          # the simulated one keeps objects
        gc.enable()

    def stream(self, spec):
        st = super().stream(dict(spec, own=True))
        if not spec.get("uniq"):
            return st
        # every request is a little different
        self.serial += 1
        tail = "%06d" % self.serial
        if isinstance(st, str):
            return st + "\n" + tail
        L = build.lib()
        if self.inputs[spec["i"]].kind == "tok":
            n = len(st)
            at = st[n - 1].end if n else L.Loc(0, 0, 0)
            return list(st) + [L.lexer.Token(
                "?", tail, at, L.Loc(at.pos + 6, at.line, at.col + 6))]
        return list(st) + [tail]

    def op_lex(self, t, spec, op):
        """Tokenises a text, perhaps only its beginning."""
        L = build.lib()
        rx = re.compile(spec["spec"])
        text = spec["text"]
        if spec.get("uniq"):
            self.serial += 1
            text = "%s%06d" % (text, self.serial)
        try:
            if spec.get("part"):
                it = L.lexer.iter_tokens(text, rx)
                for _ in range(spec["part"]):
                    next(it, None)
            else:
                L.lexer.split_tokens(text, rx)
        except L.lexer.LexError:
            return ("lexerr",)
        return ("ok",)

    def op_decl(self, t, spec, op):
        """Forward declarations that come to nothing, or to something."""
        L = build.lib()
        p = self.parsers[spec["b"]]
        d = L.r.Delay()
        q = {"alone": d, "seq": L.r.seq(p, d), "alt": L.r.alt(d, p),
             "many": L.r.many(d)}[spec["how"]]
        for bad in spec["bad"]:
            try:
                d.define(None if bad == "none" else 7)
            except Exception:
                pass
        if spec.get("use"):
            try:
                q.parse("x", recover=spec.get("rec", False))
            except Exception:
                pass
        if spec.get("good"):
            d.define(p)
        return ("ok",)

    def op_serve(self, t, spec, op):
        ops = spec["ops"]
        blocks = []
        done = 0
        for _ in range(5):
            for _ in range(spec["n"]):
                self.do(t, ops[done % len(ops)])
                done += 1
            re.purge()
            gc.collect()
            blocks.append(sys.getallocatedblocks())
        self.extra["blocks"] = blocks
        return ("served", done)


def execute_service(plan):
    return execute(plan, ServiceWorld)


_ = make_exc
