"""Builds real reparsec parsers from grammar descriptions, with every user
callback routed through the runtime, and observes results."""

import importlib
from collections.abc import Sequence

from . import lang


class Lib:
    """The library under test, resolved through its public modules."""

    def __init__(self):
        self.r = importlib.import_module("reparsec")
        self.seq = importlib.import_module("reparsec.sequence")
        self.sl = importlib.import_module("reparsec.scannerless")
        self.lexer = importlib.import_module("reparsec.lexer")
        self.prim = importlib.import_module("reparsec.primitive")
        self.layout = importlib.import_module("reparsec.layout")
        self.ParseError = self.r.ParseError
        self.Loc = self.r.Loc


_LIB = None


def lib():
    global _LIB
    if _LIB is None:
        _LIB = Lib()
    return _LIB


TRUTHS = [(True, False), (1, 0), ("yes", ""), (["x"], [])]


def flat(v, depth):
    """((a, b), c) -> (a, b, c)"""
    return (v,) if not depth else flat(v[0], depth - 1) + (v[1],)


class Builder:
    """style bits: 1 functional spelling, 2 share equal sub-parsers,
    4 items are user objects with user equality, 8 tuples from pairs,
    16 a continuation builds the parser it returns."""

    def __init__(self, g, rt, style=0):
        self.g = g
        self.rt = rt
        self.style = style
        self.memo = {}
        self.delays = {}

    def build(self, define=True):
        for r in self.g["rules"]:
            self.delays[r] = lib().r.Delay()
        start = self.node(self.g["start"])
        if define:
            for r in self.g["rules"]:
                self.delays[r].define(self.node(self.g["rules"][r]))
        return start

    def node(self, n):
        if self.style & 2:
            key = repr(n)
            if key not in self.memo:
                self.memo[key] = self.make(n)
            return self.memo[key]
        return self.make(n)

    def item(self, c):
        if self.style & 4:
            return lang.Item(c, self.rt.cb)
        return c

    def make(self, n):
        L, rt, k = lib(), self.rt, n[0]
        fn = self.style & 1
        if k == "sym":
            # label None means repr of the symbol; an Item repeats its char's
            return L.seq.sym(self.item(lang.elem(n[1])), n[2])
        if k == "sat":
            chars, i = lang.elem(n[1]), n[2]

            # what a predicate answers is true or false, not always a bool
            yes, no = TRUTHS[len(chars) % len(TRUTHS)]

            def test(t):
                rt.cb("pred", i, (t,))
                hit = (t.c if isinstance(t, lang.Item) else t) in chars
                return yes if hit else no
            return L.seq.satisfy(test)
        if k == "digit":
            if self.style & 4:
                return L.seq.satisfy(lambda t: t.c.isdigit()).label("digit")
            return L.seq.digit
        if k == "letter":
            if self.style & 4:
                return L.seq.satisfy(lambda t: t.c.isalpha()).label("letter")
            return L.seq.letter
        if k == "lit":
            return L.sl.literal(n[1])
        if k == "re":
            return L.sl.regexp(n[1], n[2]) if n[2] != 0 else L.sl.regexp(n[1])
        if k == "eof":
            return L.seq.eof()
        if k == "tok":
            return L.lexer.token(n[1])
        if k == "tokins":
            return L.lexer.token_ins(n[1], n[2])
        if k == "tsym":
            return L.seq.sym(L.lexer.Token(n[1], n[2]), n[3])
        if k == "pure":
            return L.prim.Pure(n[1])
        if k == "purefn":
            i = n[1]

            def pf():
                rt.cb("purefn", i, ())
                return lang.act_purefn(i)
            return L.prim.PureFn(pf)
        if k == "unexp":
            return L.prim.unexpected(n[1])
        if k == "ref":
            return self.delays[n[1]]
        if k == "fmap":
            i = n[1]

            def f(v):
                rt.cb("fmap", i, (v,))
                return lang.act_fmap(i, v)
            p = self.node(n[2])
            return L.r.fmap(p, f) if fn else p.fmap(f)
        if k == "bind":
            i, late = n[1], self.style & 16
            alts = n[3] if late else [self.node(c) for c in n[3]]

            def g(v):
                rt.cb("bind", i, (v,))
                q = alts[lang.pick(v, len(alts))]
                return self.make(q) if late else q
            p = self.node(n[2])
            return L.r.bind(p, g) if fn else p.bind(g)
        if k in ("seq", "seql", "seqr"):
            a, b = self.node(n[1]), self.node(n[2])
            if fn:
                return getattr(L.r, k)(a, b)
            if k == "seq":
                return a + b
            return a << b if k == "seql" else a >> b
        if k == "alt":
            a, b = self.node(n[1]), self.node(n[2])
            return L.r.alt(a, b) if fn else a | b
        if k in ("maybe", "many", "attempt", "recover"):
            p = self.node(n[1])
            return getattr(L.r, k)(p) if fn else getattr(p, k)()
        if k == "label":
            p = self.node(n[2])
            return L.r.label(p, n[1]) if fn else p.label(n[1])
        if k == "recw":
            p = self.node(n[3])
            return L.r.recover_with(p, n[1], n[2]) if fn else \
                p.recover_with(n[1], n[2])
        if k == "recf":
            i = n[1]

            def rf(stream, pos):
                rt.cb("recf", i, (pos,))
                return lang.act_recf(i, pos)
            p = self.node(n[3])
            return L.r.recover_with_fn(p, rf, n[2]) if fn else \
                p.recover_with_fn(rf, n[2])
        if k == "sepby":
            p, s = self.node(n[1]), self.node(n[2])
            return L.r.sep_by(p, s) if fn else p.sep_by(s)
        if k == "between":
            o, c, p = self.node(n[1]), self.node(n[2]), self.node(n[3])
            return L.r.between(o, c, p) if fn else p.between(o, c)
        if k in ("chainl", "chainr"):
            i = n[1]

            def op(a, b):
                rt.cb("op", i, (a, b))
                return lang.act_op(i, a, b)
            p = self.node(n[2])
            o = self.node(n[3]).fmap(lambda _: op)
            if fn:
                return getattr(L.r, k + "1")(p, o)
            return getattr(p, k + "1")(o)
        if k in ("then", "apply"):
            ps = [self.node(c) for c in (n[1] if k == "then" else n[2])]
            i = n[1]

            def ap(*vs):
                rt.cb("apply", i, vs)
                return lang.act_apply(i, *vs)
            if self.style & 8:
                # the same from pairs
                t = ps[0]
                for q in ps[1:]:
                    t = t + q if not fn else L.r.seq(t, q)
                d = len(ps) - 1
                if k == "then":
                    return t.fmap(lambda v: flat(v, d))
                return t.fmap(lambda v: ap(*flat(v, d)))
            t = ps[0]
            if not hasattr(t, "then") or type(t).__name__.startswith("_Tuple"):
                t = t.fmap(lambda v: v)     # start a fresh tuple
            for q in ps[1:]:
                t = t.then(q)
            if k == "then":
                return t
            return t.apply(ap)
        if k == "block":
            return L.layout.block(self.node(n[1]))
        if k == "aligned":
            return L.layout.aligned(self.node(n[1]))
        if k == "indented":
            return L.layout.indented(n[1], self.node(n[2]))
        raise AssertionError(k)


class NullRT:
    """Runtime used where nothing is scheduled or injected."""

    def cb(self, kind, i, args):
        pass


def tokens(items, locs):
    L = lib()
    return [L.lexer.Token(k, v, L.Loc(*a), L.Loc(*b))
            for (k, v), (a, b) in zip(items, locs)]


def make_input(kind, items, locs=None, cont="list"):
    if kind in ("str0", "strlc"):
        return lang.Input(kind, "".join(items))
    inp = lang.Input(kind, [lang.elem(x) for x in items], locs)
    if cont in ("bytes", "bytearray") and not all(
            type(x) is int and 0 <= x < 256 for x in inp.items):
        cont = "list"
    if cont == "range" and (not all(
            type(x) is int for x in inp.items) or
            [x - inp.items[0] for x in inp.items] !=
            list(range(len(inp.items)))):
        cont = "tuple"
    inp.cont = cont
    return inp


class UserSeq(Sequence):
    """A sequence type of the user's, as small as it can be."""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


CONTAINERS = {"list": list, "tuple": tuple, "user": UserSeq, "bytes": bytes,
              "bytearray": bytearray,
              "range": lambda xs: range(xs[0], xs[0] + len(xs))
              if xs else range(0)}


def real_stream(inp):
    if inp.kind == "tok":
        return CONTAINERS[inp.cont](tokens(inp.items, inp.locs))
    if inp.kind == "seq":
        return CONTAINERS[inp.cont](inp.items)
    return inp.items


def call_parse(parser, stream, kind, recover, max_ins=None, get_loc=None,
               fmt_loc=None):
    L = lib()
    if kind == "strlc" and max_ins is None and get_loc is None:
        return L.sl.parse(parser, stream, recover)
    if kind == "tok" and max_ins is None and get_loc is None:
        return L.lexer.parse(parser, stream, recover)
    kw = {}
    if max_ins is not None:
        kw["max_insertions"] = max_ins
    if kind == "strlc":
        def gl(loc, s, p):
            return L.Loc(p, *lang.line_col(s, p))
        kw["get_loc"] = get_loc or gl
        kw["fmt_loc"] = fmt_loc or (
            lambda l: "{}:{}".format(l.line + 1, l.col + 1))
    elif kind == "tok":
        def gt(loc, s, p):
            if p < len(s):
                return s[p].start
            return s[-1].end if s else L.Loc(p, 0, 0)
        kw["get_loc"] = get_loc or gt
        kw["fmt_loc"] = fmt_loc or (
            lambda l: "{}:{}".format(l.line + 1, l.col + 1))
    else:
        if get_loc is not None:
            kw["get_loc"] = get_loc
        if fmt_loc is not None:
            kw["fmt_loc"] = fmt_loc
    return parser.parse(stream, recover, **kw)


def op_of(op):
    if op is None:
        return None
    if type(op).__name__ == "Skip":
        return ("skip", op.count)
    return ("ins", op.label)


def report(err):
    return tuple(
        (tuple(e.loc), e.loc_str, tuple(e.expected), op_of(e.op), e.msg)
        for e in err.errors)


def unwrap(res, recover=False):
    """-> ('val', normalised) | ('perr', report)"""
    try:
        v = res.unwrap(recover) if recover else res.unwrap()
    except lib().ParseError as e:
        if getattr(e, "injected", False):
            raise
        return ("perr", report(e))
    return ("val", lang.norm(v))


def observe(res, recover):
    if not recover:
        return (unwrap(res),)
    return (unwrap(res), unwrap(res, True))
