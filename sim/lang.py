"""Grammar descriptions, the builder that turns one into real reparsec parsers,
and the small executable reference model.

A grammar is JSON: {"rules": {name: node}, "start": node}.  A node is a list
[kind, ...].  The model below never touches reparsec.
"""

import re

# --------------------------------------------------------------------------
# values


class Tk(tuple):
    """Normalised lexer token ("K", kind, value, start, end); equal to the
    tuple."""

    __slots__ = ()


NOWHERE = (0, 0, 0)


def tk(kind, value, start=NOWHERE, end=NOWHERE):
    return Tk(("K", kind, value, start, end))


def placeless(v):
    """The value without the places of its tokens."""
    if isinstance(v, Tk):
        return v[:3]
    return tuple(map(placeless, v)) if isinstance(v, tuple) else v


def norm(v):
    """Turns any value a parse can return into hashable plain data."""
    if isinstance(v, Tk):
        return v
    if isinstance(v, list):
        return ("L",) + tuple(norm(x) for x in v)
    if isinstance(v, tuple):
        return ("T",) + tuple(norm(x) for x in v)
    if isinstance(v, (bool, float)):
        # equal to an int, but not the same
        return ("#", repr(v))
    if isinstance(v, (str, int)) or v is None:
        return v
    if type(v).__name__ == "Token":
        return tk(v.kind, v.value, tuple(v.start), tuple(v.end))
    if isinstance(v, Item):
        return norm(v.c)
    return ("?", repr(v))


def elem(x):
    """An input element as written in a plan."""
    return tuple(elem(y) for y in x) if isinstance(x, list) else x


class Item:
    """Element of a lazily loaded sequence; equality is user code."""

    __slots__ = ("c", "cb")

    def __init__(self, c, cb=None):
        self.c = c
        self.cb = cb

    def __eq__(self, other):
        if self.cb is not None:
            self.cb("eq", "eq", (self.c,))
        elif isinstance(other, Item) and other.cb is not None:
            other.cb("eq", "eq", (self.c,))
        same = isinstance(other, Item) and other.c == self.c
        # an answer need not be a bool
        return same if self.c in ("a", "b", "c") else (1 if same else 0)

    def __ne__(self, other):
        return not self.__eq__(other)

    def __hash__(self):
        return hash(self.c)

    def __repr__(self):
        return repr(self.c)


# --------------------------------------------------------------------------
# the pure meaning of the user supplied callbacks (shared by model and builder)

def act_fmap(i, v):
    return ("f%s" % i, v)


def act_op(i, a, b):
    if str(i).endswith("~"):
        # chains of thousands: the value stays flat
        return "o%s" % i, (31 * weigh(a) + 17 * weigh(b) + 1) % 1000003
    return ("o%s" % i, a, b)


def weigh(v):
    return v[-1] if isinstance(v, tuple) and len(v) > 1 and \
        isinstance(v[-1], int) and str(v[-2]).endswith("~") else 7


def flat_chains(n):
    if isinstance(n, dict):
        return {k: flat_chains(v) for k, v in n.items()}
    if not isinstance(n, list):
        return n
    n = [flat_chains(x) for x in n]
    if n and n[0] in ("chainl", "chainr"):
        n[1] = "%s~" % n[1]
    return n


def act_apply(i, *vs):
    return ("a%s" % i,) + vs


def act_purefn(i):
    return "pf%s" % i


def act_recf(i, pos):
    return "rf%s@%d" % (i, pos)


def pick(v, n):
    """Stable choice of a continuation from a value (for bind)."""
    return sum(ord(c) for c in repr(placeless(norm(v)))) % n


# --------------------------------------------------------------------------
# structure

def kids(node):
    """Child nodes of a node, in order."""
    k = node[0]
    if k in ("fmap", "indented", "label"):
        return [node[2]]
    if k == "bind":
        return [node[2]] + list(node[3])
    if k in ("seq", "seql", "seqr", "alt"):
        return [node[1], node[2]]
    if k in ("maybe", "many", "attempt", "recover", "block", "aligned"):
        return [node[1]]
    if k in ("recw", "recf"):
        return [node[3]]
    if k == "sepby":
        return [node[1], node[2]]
    if k == "between":
        return [node[1], node[2], node[3]]
    if k in ("chainl", "chainr"):
        return [node[2], node[3]]
    if k == "then":
        return list(node[1])
    if k == "apply":
        return list(node[2])
    return []


def with_kids(node, ch):
    k = node[0]
    if k in ("fmap", "indented", "label"):
        return [k, node[1], ch[0]]
    if k == "bind":
        return [k, node[1], ch[0], list(ch[1:])]
    if k in ("seq", "seql", "seqr", "alt", "sepby"):
        return [k, ch[0], ch[1]]
    if k in ("maybe", "many", "attempt", "recover", "block", "aligned"):
        return [k, ch[0]]
    if k in ("recw", "recf"):
        return [k, node[1], node[2], ch[0]]
    if k == "between":
        return [k, ch[0], ch[1], ch[2]]
    if k in ("chainl", "chainr"):
        return [k, node[1], ch[0], ch[1]]
    if k == "then":
        return [k, list(ch)]
    if k == "apply":
        return [k, node[1], list(ch)]
    return node


def walk(node):
    yield node
    for c in kids(node):
        yield from walk(c)


def all_nodes(g):
    for n in g["rules"].values():
        yield from walk(n)
    yield from walk(g["start"])


def kinds_of(g):
    return sorted({n[0] for n in all_nodes(g)})


def size(g):
    return sum(1 for _ in all_nodes(g))


def nullable_env(g):
    """Rules that can succeed without consuming (least fixpoint)."""
    env = {r: False for r in g["rules"]}
    while True:
        new = {r: nullable(n, env) for r, n in g["rules"].items()}
        if new == env:
            return env
        env = new


def nullable(n, env):
    k = n[0]
    if k in ("pure", "purefn", "eof", "maybe", "many", "sepby"):
        return True
    if k == "re":
        return re.match(n[1], "") is not None
    if k == "ref":
        return env[n[1]]
    if k == "alt":
        return nullable(n[1], env) or nullable(n[2], env)
    if k in ("sym", "sat", "digit", "letter", "lit", "tok", "tokins", "tsym",
             "unexp"):
        return False
    if k in ("chainl", "chainr"):
        return nullable(n[2], env)
    if k == "bind":
        return nullable(n[2], env) and any(nullable(c, env) for c in n[3])
    return all(nullable(c, env) for c in kids(n))


def left_calls(n, env):
    """Rule names reachable before anything is consumed."""
    k = n[0]
    if k == "ref":
        return {n[1]}
    if k == "alt":
        return left_calls(n[1], env) | left_calls(n[2], env)
    out = set()
    if k == "bind":
        out |= left_calls(n[2], env)
        if nullable(n[2], env):
            for c in n[3]:
                out |= left_calls(c, env)
        return out
    if k == "between":
        seq = [n[1], n[3], n[2]]
    else:
        seq = kids(n)
    for c in seq:
        out |= left_calls(c, env)
        if not nullable(c, env):
            break
    return out


def wellformed(g):
    """No left recursion, no repetition of a parser that accepts the empty
    string, every reference defined."""
    try:
        for n in all_nodes(g):
            if n[0] == "ref" and n[1] not in g["rules"]:
                return False
        env = nullable_env(g)
        for n in all_nodes(g):
            if n[0] == "many" and nullable(n[1], env):
                return False
            if n[0] == "sepby" and nullable(n[1], env) and \
                    nullable(n[2], env):
                return False
            if n[0] in ("chainl", "chainr") and nullable(n[2], env) and \
                    nullable(n[3], env):
                return False
        calls = {r: left_calls(n, env) for r, n in g["rules"].items()}
        for r in calls:
            seen, todo = set(), list(calls[r])
            while todo:
                x = todo.pop()
                if x == r:
                    return False
                if x not in seen:
                    seen.add(x)
                    todo.extend(calls[x])
        return True
    except Exception:
        return False


# --------------------------------------------------------------------------
# locations, from scratch

def line_col(text, pos):
    """Line and column of a position in a text, recomputed from the start."""
    line = col = 0
    for ch in text[:pos]:
        if ch == "\n":
            line += 1
            col = 0
        else:
            col += 1
    return line, col


class Input:
    """What one parse reads.  kind: 'str0' (no line tracking), 'strlc' (line
    tracking text), 'tok' (lexer tokens with locations), 'seq' (lazy
    sequence)."""

    def __init__(self, kind, items, locs=None):
        self.kind = kind
        self.items = items          # str, or list of chars / (kind, value)
        self.locs = locs            # tok: list of (start, end) Loc tuples
        self.n = len(items)
        self.cont = "list"
        self._lc = {}

    def loc(self, pos):
        """(pos, line, col) a correct report uses for position `pos`."""
        r = self._lc.get(pos)
        if r is None:
            if self.kind == "strlc":
                r = (pos,) + line_col(self.items, pos)
            elif self.kind == "tok":
                if pos < self.n:
                    r = self.locs[pos][0]
                elif self.n:
                    r = self.locs[-1][1]
                else:
                    r = (pos, 0, 0)
            else:
                r = (pos, 0, 0)
            self._lc[pos] = r
        return r

    def col(self, pos):
        return self.loc(pos)[2]


# --------------------------------------------------------------------------
# terminals (shared by both models)

class Terms:
    """Pure matching of terminals: match(node, inp, pos) -> (value, end) or
    None.  `touch` collects indexes examined."""

    def __init__(self):
        self._re = {}

    def rx(self, pat):
        r = self._re.get(pat)
        if r is None:
            r = self._re[pat] = re.compile(pat)
        return r

    def match(self, n, inp, pos, touch=None):
        k = n[0]
        if k == "lit":
            if inp.items.startswith(n[1], pos):
                return n[1], pos + len(n[1])
            return None
        if k == "re":
            m = self.rx(n[1]).match(inp.items, pos)
            if m is None:
                return None
            v = m.group(n[2])
            if v is None:
                return None
            return v, m.end()
        if k == "eof":
            return (None, pos) if pos == inp.n else None
        if pos >= inp.n:
            return None
        if touch is not None:
            touch.add(pos)
        t = inp.items[pos]
        if k == "sym":
            ok = t == elem(n[1])
        elif k == "sat":
            ok = t in elem(n[1])
        elif k == "digit":
            ok = t.isdigit()
        elif k == "letter":
            ok = t.isalpha()
        elif k in ("tok", "tokins"):
            ok = t[0] == n[1]
        elif k == "tsym":
            ok = t[0] == n[1] and t[1] == n[2]
        else:
            raise AssertionError(k)
        if not ok:
            return None
        if inp.kind == "tok":
            return tk(t[0], t[1], *inp.locs[pos]), pos + 1
        return t, pos + 1


TERMS = Terms()
TERMINALS = ("sym", "sat", "digit", "letter", "lit", "re", "eof", "tok",
             "tokins", "tsym")
LOCATED = TERMINALS + ("unexp", "block", "aligned", "indented")


def insertion(n):
    """(value, label) a terminal offers as an insertion, or None."""
    k = n[0]
    if k == "sym":
        x = elem(n[1])
        return norm(x), (repr(x) if n[2] is None else n[2])
    if k == "lit":
        return n[1], repr(n[1])
    if k == "tsym":
        return tk(n[1], n[2]), n[3]
    return None


class EmptyRepetition(Exception):
    pass


class ModelBudget(Exception):
    pass


# --------------------------------------------------------------------------
# model 1: deterministic (plain) parse

def name_of(n):
    """What a report calls a terminal that was not found."""
    k = n[0]
    if k == "sym":
        return (repr(elem(n[1])) if n[2] is None else n[2],)
    if k == "lit":
        return (repr(n[1]),)
    if k == "tsym":
        return ("Token(kind=%r, value=%r)" % (n[1], n[2])
                if n[3] is None else n[3],)
    if k in ("tok", "tokins"):
        return (n[1],)
    return {"eof": ("end of file",), "digit": ("digit",),
            "letter": ("letter",)}.get(k, ())


def after(r, s):
    """The result of s, which follows r."""
    return s[:3] + (r[3] or s[3], s[4] if s[3] else r[4] + s[4])


class Undefined(Exception):
    """A forward declaration was used before its definition."""


class Plain:
    """Documented sequential semantics of a parse without recovery."""

    def __init__(self, g, inp, budget=200000):
        self.rules = g["rules"]
        self.inp = inp
        self.touch = set()
        self.at = set()         # places where a terminal or layout was tried
        self.actions = []
        self.rewound = False    # attempt() dropped a failure further on
        self.budget = budget
        self.start = g["start"]

    def run(self):
        """-> ('ok', value, end) | ('err', pos) | ('empty',)"""
        try:
            r = self.p(self.start, 0, 0)
        except EmptyRepetition:
            return ("empty",)
        except Undefined:
            return ("undefined",)
        if r[0]:
            return ("ok", norm(r[1]), r[2])
        return ("err", r[2], r[4])

    # result: (ok, value, pos, consumed, expected)
    # (error: pos is the error position; expected: labels of what was tried
    # at the last place and not found there)
    def p(self, n, pos, mark):
        self.budget -= 1
        if self.budget < 0:
            raise ModelBudget()
        k = n[0]
        if k in LOCATED:
            self.at.add(pos)
        if k in TERMINALS:
            m = TERMS.match(n, self.inp, pos, self.touch)
            if m is None:
                return False, None, pos, False, name_of(n)
            return (True, m[0], m[1], m[1] != pos or k not in ("eof", "re"),
                    ())
        return getattr(self, "n_" + k)(n, pos, mark)

    def act(self, what, i, *args):
        self.actions.append((what, str(i)) + tuple(norm(a) for a in args))

    def n_pure(self, n, pos, mark):
        return True, n[1], pos, False, ()

    def n_purefn(self, n, pos, mark):
        self.act("purefn", n[1])
        return True, act_purefn(n[1]), pos, False, ()

    def n_unexp(self, n, pos, mark):
        return False, None, pos, False, (n[1],)

    def n_undef(self, n, pos, mark):
        raise Undefined()

    def n_fmap(self, n, pos, mark):
        r = self.p(n[2], pos, mark)
        if r[0]:
            self.act("fmap", n[1], r[1])
            return True, act_fmap(n[1], r[1]), r[2], r[3], r[4]
        return r

    def n_bind(self, n, pos, mark):
        r = self.p(n[2], pos, mark)
        if not r[0]:
            return r
        self.act("bind", n[1], r[1])
        s = self.p(n[3][pick(r[1], len(n[3]))], r[2], mark)
        return after(r, s)

    def two(self, a, b, pos, mark):
        r = self.p(a, pos, mark)
        if not r[0]:
            return r, None
        s = self.p(b, r[2], mark)
        return r, after(r, s)

    def n_seq(self, n, pos, mark):
        r, s = self.two(n[1], n[2], pos, mark)
        if s is None:
            return r
        return (True, (r[1], s[1])) + s[2:] if s[0] else s

    def n_seql(self, n, pos, mark):
        r, s = self.two(n[1], n[2], pos, mark)
        if s is None:
            return r
        return (True, r[1]) + s[2:] if s[0] else s

    def n_seqr(self, n, pos, mark):
        r, s = self.two(n[1], n[2], pos, mark)
        return r if s is None else s

    def n_between(self, n, pos, mark):
        return self.n_seqr(["seqr", n[1], ["seql", n[3], n[2]]], pos, mark)

    def n_alt(self, n, pos, mark):
        r = self.p(n[1], pos, mark)
        if r[0] or r[3]:
            return r
        s = self.p(n[2], pos, mark)
        if s[3]:
            return s
        if s[0]:
            return s[:4] + (r[4] + s[4],)
        return r[:4] + (r[4] + s[4],)

    def n_maybe(self, n, pos, mark):
        r = self.p(n[1], pos, mark)
        if r[0] or r[3]:
            return r
        return True, None, pos, False, r[4]

    def n_many(self, n, pos, mark):
        out, consumed = [], False
        while True:
            r = self.p(n[1], pos, mark)
            if not r[0]:
                if r[3]:
                    return r
                return True, out, pos, consumed, r[4]
            if not r[3]:
                raise EmptyRepetition()
            consumed = True
            out.append(r[1])
            pos = r[2]

    def n_attempt(self, n, pos, mark):
        r = self.p(n[1], pos, mark)
        if r[0]:
            return r
        self.rewound = self.rewound or r[3]
        return False, None, r[2], False, r[4]

    def n_label(self, n, pos, mark):
        r = self.p(n[2], pos, mark)
        return r if r[3] else r[:4] + ((n[1],),)

    def n_recover(self, n, pos, mark):
        return self.p(n[1], pos, mark)

    def n_recw(self, n, pos, mark):
        return self.p(n[3], pos, mark)

    n_recf = n_recw

    def n_sepby(self, n, pos, mark):
        r = self.n_maybe(
            ["maybe", ["seq", n[1], ["many", ["seqr", n[2], n[1]]]]], pos,
            mark)
        if not r[0]:
            return r
        v = [] if r[1] is None else [r[1][0]] + r[1][1]
        return (True, v) + r[2:]

    def chain(self, n, pos, mark, fold):
        # the operator parser's value is replaced by a function
        r = self.p(n[2], pos, mark)
        if not r[0]:
            return r
        s = self.n_many(["many", ["seq", n[3], n[2]]], r[2], mark)
        s = after(r, s)
        if not s[0]:
            return s
        return (True, fold(r[1], [x[1] for x in s[1]])) + s[2:]

    def n_chainl(self, n, pos, mark):
        def fold(acc, tail):
            for x in tail:
                self.act("op", n[1], acc, x)
                acc = act_op(n[1], acc, x)
            return acc
        return self.chain(n, pos, mark, fold)

    def n_chainr(self, n, pos, mark):
        def fold(acc, tail):
            xs = [acc] + tail
            acc = xs[-1]
            for x in reversed(xs[:-1]):
                self.act("op", n[1], x, acc)
                acc = act_op(n[1], x, acc)
            return acc
        return self.chain(n, pos, mark, fold)

    def tup(self, ps, pos, mark):
        vs, r = [], (True, None, pos, False, ())
        for q in ps:
            r = after(r, self.p(q, r[2], mark))
            if not r[0]:
                return r
            vs.append(r[1])
        return (True, tuple(vs)) + r[2:]

    def n_then(self, n, pos, mark):
        return self.tup(n[1], pos, mark)

    def n_apply(self, n, pos, mark):
        r = self.tup(n[2], pos, mark)
        if not r[0]:
            return r
        self.act("apply", n[1], *r[1])
        return (True, act_apply(n[1], *r[1])) + r[2:]

    def n_ref(self, n, pos, mark):
        return self.p(self.rules[n[1]], pos, mark)

    def n_block(self, n, pos, mark):
        return self.p(n[1], pos, self.inp.col(pos))

    def n_aligned(self, n, pos, mark):
        if mark != self.inp.col(pos):
            return False, None, pos, False, ("indentation",)
        return self.p(n[1], pos, mark)

    def n_indented(self, n, pos, mark):
        c = self.inp.col(pos)
        if mark + n[1] != c:
            return False, None, pos, False, ("indentation",)
        return self.p(n[2], pos, c)


# --------------------------------------------------------------------------
# model 2: does a derivation exist that uses exactly these edits?

class Derive:
    """All ways the grammar (read as a context free grammar with semantic
    values) derives the input with exactly the journal `ops` applied, in
    order.  ops: list of ('ins', label, loc) / ('skip', count, loc)."""

    def __init__(self, g, inp, ops, budget=60000, width=64):
        self.rules = g["rules"]
        self.start = g["start"]
        self.inp = inp
        self.ops = ops
        self.memo = {}
        self.keep = []
        self.budget = budget
        self.width = width

    def values(self, whole=True):
        """Values of the derivations that use every op."""
        out = []
        for v, pos, k in self.d(self.start, 0, 0, 0):
            if k == len(self.ops) and v not in out:
                out.append(v)
        return out

    def d(self, n, pos, k, mark):
        key = (id(n), pos, k, mark)
        r = self.memo.get(key)
        if r is None:
            self.budget -= 1
            if self.budget < 0:
                raise ModelBudget()
            self.keep.append(n)
            seen = {}
            for x in self.raw(n, pos, k, mark):
                seen[x] = None
                if len(seen) > self.width:
                    raise ModelBudget()
            r = self.memo[key] = list(seen)
        return r

    def op_at(self, k, pos):
        """The k-th edit if it is located at position pos."""
        if k < len(self.ops) and self.ops[k][2] == self.inp.loc(pos):
            return self.ops[k]
        return None

    def raw(self, n, pos, k, mark):
        kd = n[0]
        if kd in TERMINALS:
            m = TERMS.match(n, self.inp, pos)
            if m is not None:
                yield norm(m[0]), m[1], k
            op = self.op_at(k, pos)
            if op is None:
                return
            if op[0] == "ins":
                ins = insertion(n)
                if ins is not None and ins[1] == op[1]:
                    yield ins[0], pos, k + 1
                if kd == "tokins" and op[1] == n[1]:
                    at = self.inp.loc(pos)
                    yield tk(n[1], n[2], at, at), pos, k + 1
            elif op[1] > 0:
                if kd == "eof":
                    if pos + op[1] == self.inp.n:
                        yield None, self.inp.n, k + 1
                elif pos + op[1] < self.inp.n:
                    m = TERMS.match(n, self.inp, pos + op[1])
                    if m is not None:
                        yield norm(m[0]), m[1], k + 1
            return
        yield from getattr(self, "d_" + kd)(n, pos, k, mark)

    def d_pure(self, n, pos, k, mark):
        yield norm(n[1]), pos, k

    def d_purefn(self, n, pos, k, mark):
        yield act_purefn(n[1]), pos, k

    def d_unexp(self, n, pos, k, mark):
        return iter(())

    def d_fmap(self, n, pos, k, mark):
        for v, p, q in self.d(n[2], pos, k, mark):
            yield ("T", "f%s" % n[1], v), p, q

    def d_bind(self, n, pos, k, mark):
        for v, p, q in self.d(n[2], pos, k, mark):
            yield from self.d(n[3][pick(Raw(v), len(n[3]))], p, q, mark)

    def seqs(self, ps, pos, k, mark):
        """All value tuples of a sequence."""
        if not ps:
            yield (), pos, k
            return
        for v, p, q in self.d(ps[0], pos, k, mark):
            for vs, p2, q2 in self.seqs(ps[1:], p, q, mark):
                yield (v,) + vs, p2, q2

    def d_seq(self, n, pos, k, mark):
        for v, p, q in self.seqs(n[1:3], pos, k, mark):
            yield ("T",) + v, p, q

    def d_seql(self, n, pos, k, mark):
        for v, p, q in self.seqs(n[1:3], pos, k, mark):
            yield v[0], p, q

    def d_seqr(self, n, pos, k, mark):
        for v, p, q in self.seqs(n[1:3], pos, k, mark):
            yield v[1], p, q

    def d_between(self, n, pos, k, mark):
        for v, p, q in self.seqs([n[1], n[3], n[2]], pos, k, mark):
            yield v[1], p, q

    def d_alt(self, n, pos, k, mark):
        yield from self.d(n[1], pos, k, mark)
        yield from self.d(n[2], pos, k, mark)

    def d_maybe(self, n, pos, k, mark):
        yield from self.d(n[1], pos, k, mark)
        yield None, pos, k

    def reps(self, f, pos, k, acc):
        """Zero or more f, as tuples, longest first."""
        for v, p, q in f(pos, k):
            if (p, q) != (pos, k):
                yield from self.reps(f, p, q, acc + (v,))
        yield acc, pos, k

    def d_many(self, n, pos, k, mark):
        for vs, p, q in self.reps(
                lambda p, q: self.d(n[1], p, q, mark), pos, k, ()):
            self.tick()
            yield ("L",) + vs, p, q

    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise ModelBudget()

    def d_attempt(self, n, pos, k, mark):
        return self.d(n[1], pos, k, mark)

    d_recover = d_attempt

    def d_label(self, n, pos, k, mark):
        return self.d(n[2], pos, k, mark)

    def d_recw(self, n, pos, k, mark):
        yield from self.d(n[3], pos, k, mark)
        op = self.op_at(k, pos)
        if op is not None and op[0] == "ins":
            if op[1] == (repr(n[1]) if n[2] is None else n[2]):
                yield norm(n[1]), pos, k + 1

    def d_recf(self, n, pos, k, mark):
        yield from self.d(n[3], pos, k, mark)
        op = self.op_at(k, pos)
        if op is not None and op[0] == "ins":
            x = act_recf(n[1], pos)
            if op[1] == (repr(x) if n[2] is None else n[2]):
                yield x, pos, k + 1

    def d_sepby(self, n, pos, k, mark):
        def more(p, q):
            for vs, p2, q2 in self.seqs([n[2], n[1]], p, q, mark):
                yield vs[1], p2, q2
        for v, p, q in self.d(n[1], pos, k, mark):
            for vs, p2, q2 in self.reps(more, p, q, ()):
                self.tick()
                yield ("L", v) + vs, p2, q2
        yield ("L",), pos, k

    def chains(self, n, pos, k, mark):
        def more(p, q):
            for vs, p2, q2 in self.seqs([n[3], n[2]], p, q, mark):
                yield vs[1], p2, q2
        for v, p, q in self.d(n[2], pos, k, mark):
            for vs, p2, q2 in self.reps(more, p, q, ()):
                self.tick()
                yield (v,) + vs, p2, q2

    def d_chainl(self, n, pos, k, mark):
        for vs, p, q in self.chains(n, pos, k, mark):
            acc = vs[0]
            for x in vs[1:]:
                acc = ("T", "o%s" % n[1], acc, x)
            yield acc, p, q

    def d_chainr(self, n, pos, k, mark):
        for vs, p, q in self.chains(n, pos, k, mark):
            acc = vs[-1]
            for x in reversed(vs[:-1]):
                acc = ("T", "o%s" % n[1], x, acc)
            yield acc, p, q

    def d_then(self, n, pos, k, mark):
        for vs, p, q in self.seqs(n[1], pos, k, mark):
            yield ("T",) + vs, p, q

    def d_apply(self, n, pos, k, mark):
        for vs, p, q in self.seqs(n[2], pos, k, mark):
            yield ("T", "a%s" % n[1]) + vs, p, q

    def d_ref(self, n, pos, k, mark):
        return self.d(self.rules[n[1]], pos, k, mark)

    def d_block(self, n, pos, k, mark):
        return self.d(n[1], pos, k, self.inp.col(pos))

    def d_aligned(self, n, pos, k, mark):
        if mark != self.inp.col(pos):
            return ()
        return self.d(n[1], pos, k, mark)

    def d_indented(self, n, pos, k, mark):
        c = self.inp.col(pos)
        if mark + n[1] != c:
            return ()
        return self.d(n[2], pos, k, c)


# --------------------------------------------------------------------------
# model 3: every repair recovery may choose from

class R(tuple):
    """A repair: (cost, marked, insertions left, edits, value, place, labels,
    consumed); an edit: (kind, what, place, labels, settled)."""

    __slots__ = ()


def fixed_after(ops, exp, consumed):
    """Edits that follow something."""
    return tuple(o if o[4] else o[:3] + (exp + o[3], consumed) for o in ops)


def relabel(r, exp):
    if r[0] == "rec":
        reps = [R(x[:3] + (
            tuple(o if o[4] else o[:3] + (exp, False) for o in x[3]),
            x[4], x[5], x[6] if x[7] else exp, x[7])) for x in r[4]]
        return r[:3] + (r[3] if r[2] else exp, reps)
    if r[0] == "ok":
        return r if r[3] else r[:4] + (exp,)
    return r if r[2] else r[:3] + (exp,)


def follows(r, exp, consumed):
    """The result r of something that comes after something else."""
    if r[0] == "ok":
        return r if r[3] else r[:3] + (consumed, exp + r[4])
    if r[0] == "err":
        return r if r[2] else r[:2] + (consumed, exp + r[3])
    reps = [R(x[:3] + (fixed_after(x[3], exp, consumed), x[4], x[5])
              + (x[6:] if x[7] else (exp + x[6], consumed))) for x in r[4]]
    head = r[1:4] if r[2] else (r[1], consumed, exp + r[3])
    return ("rec",) + head + (reps,)


class Repairs:
    """A parse with recovery.  At the place where a parser without consuming
    anything fails, what it offers may be inserted (cost 1) and elements may
    be skipped up to the next that fits (cost 1 each); later alternatives only
    add skips and what `recover*` marks.  `rem` is the number of insertions
    left, None where nothing may be repaired."""

    def __init__(self, g, inp, limit, budget=150000):
        self.rules = g["rules"]
        self.start = g["start"]
        self.inp = inp
        self.limit = limit
        self.sure = Plain(g, inp, budget)
        self.budget = budget

    def run(self):
        """-> ('empty',) | ('ok', value) | ('err', pos, labels)
        | ('rec', the repair chosen, number of candidates)"""
        try:
            r = self.q(self.start, 0, 0, self.limit)
        except EmptyRepetition:
            return ("empty",)
        if r[0] == "ok":
            return ("ok", norm(r[1]))
        if r[0] == "err" or not r[4]:
            return ("err", r[1], r[3])
        return ("rec", min(r[4], key=lambda x: (x[0], -x[5], not x[1])),
                len(r[4]))

    def tick(self, n=1):
        self.budget -= n
        if self.budget < 0:
            raise ModelBudget()

    def q(self, n, pos, mark, rem):
        self.tick()
        if n[0] in TERMINALS:
            return self.term(n, pos, rem)
        return getattr(self, "q_" + n[0])(n, pos, mark, rem)

    def term(self, n, pos, rem):
        k, inp = n[0], self.inp
        if k == "tokins":
            at = inp.loc(pos)
            return self.offer(self.term(["tok", n[1]], pos, rem), pos, rem,
                              tk(n[1], n[2], at, at), n[1])
        m = TERMS.match(n, inp, pos)
        if m is not None:
            return ("ok", m[0], m[1],
                    m[1] != pos or k not in ("eof", "re"), ())
        exp = name_of(n)
        if rem is None:
            return ("err", pos, False, exp)
        if k == "eof":
            return ("rec", pos, False, exp, [R((
                inp.n - pos, True, self.limit,
                (("skip", inp.n - pos, pos, exp, False),), None, inp.n, (),
                False))])
        reps = []
        can = k in ("sym", "lit", "tsym")
        if can and rem:
            reps.append(R((1, False, rem - 1, (
                ("ins", exp[0], pos, exp, False),),
                insertion(n)[0] if k != "sym" else elem(n[1]), pos, (),
                True)))
        for cur in range(pos + 1, inp.n):
            self.tick()
            m = TERMS.match(n, inp, cur)
            if m is not None:
                reps.append(R((cur - pos, True, self.limit, (
                    ("skip", cur - pos, pos, exp, False),), m[0], m[1], (),
                    True)))
                break
        if reps or can:
            return ("rec", pos, False, exp, reps)
        return ("err", pos, False, exp)

    def offer(self, r, pos, rem, value, label):
        """recover_with: a value for a parser that fails at once."""
        if rem is None or rem == 0 or r[0] == "ok" or r[2]:
            return r
        rep = R((1, True, rem - 1, (("ins", label, pos, r[3], False),),
                 value, pos, (), True))
        if r[0] == "err":
            return ("rec", pos, False, r[3], [rep])
        return ("rec", pos, False, r[3], [rep] + r[4])

    def map(self, r, f):
        if r[0] == "ok":
            return ("ok", f(r[1])) + r[2:]
        if r[0] == "err":
            return r
        self.tick(len(r[4]))
        return r[:4] + ([R(x[:4] + (f(x[4]),) + x[5:]) for x in r[4]],)

    def go_on(self, r, then, merge):
        reps = []
        for x in r[4]:
            s = then(x[4], x[5], x[2])
            if s[0] == "ok":
                reps.append(R((
                    x[0], x[1], x[2] if s[2] == x[5] else self.limit, x[3],
                    merge(x[4], s[1]), s[2],
                    s[4] if s[3] else x[6] + s[4], x[7] or s[3])))
            elif s[0] == "rec":
                self.tick(len(s[4]))
                for y in s[4]:
                    reps.append(R((
                        x[0] + y[0], x[1], y[2],
                        x[3] + fixed_after(y[3], x[6], x[7]),
                        merge(x[4], y[4]), y[5],
                        y[6] if y[7] else x[6] + y[6], x[7] or y[7])))
        return r[:4] + (reps,)

    def chainof(self, r, rem, then, merge):
        """r, then what `then(value, pos, rem)` gives."""
        if r[0] == "err":
            return r
        if r[0] == "rec":
            return self.go_on(r, then, merge)
        s = then(r[1], r[2], self.limit if r[3] else rem)
        return follows(self.map(s, lambda v: merge(r[1], v)), r[4], r[3])

    def two(self, a, b, pos, mark, rem, merge):
        return self.chainof(
            self.q(a, pos, mark, rem), rem,
            lambda _, p, m: self.q(b, p, mark, m), merge)

    def q_pure(self, n, pos, mark, rem):
        return ("ok", n[1], pos, False, ())

    def q_purefn(self, n, pos, mark, rem):
        return ("ok", act_purefn(n[1]), pos, False, ())

    def q_unexp(self, n, pos, mark, rem):
        return ("err", pos, False, (n[1],))

    def q_fmap(self, n, pos, mark, rem):
        return self.map(self.q(n[2], pos, mark, rem),
                        lambda v: act_fmap(n[1], v))

    def q_bind(self, n, pos, mark, rem):
        return self.chainof(
            self.q(n[2], pos, mark, rem), rem,
            lambda v, p, m: self.q(n[3][pick(v, len(n[3]))], p, mark, m),
            lambda _, v: v)

    def q_seq(self, n, pos, mark, rem):
        return self.two(n[1], n[2], pos, mark, rem, lambda a, b: (a, b))

    def q_seql(self, n, pos, mark, rem):
        return self.two(n[1], n[2], pos, mark, rem, lambda a, b: a)

    def q_seqr(self, n, pos, mark, rem):
        return self.two(n[1], n[2], pos, mark, rem, lambda a, b: b)

    def q_between(self, n, pos, mark, rem):
        return self.q_seqr(["seqr", n[1], ["seql", n[3], n[2]]], pos, mark,
                           rem)

    def q_alt(self, n, pos, mark, rem):
        a = self.q(n[1], pos, mark, None)
        if a[0] == "ok" or a[2]:
            return a
        b = self.q(n[2], pos, mark, None)
        if b[3 if b[0] == "ok" else 2]:
            return b
        exp = a[3] + (b[4] if b[0] == "ok" else b[3])
        if b[0] == "ok":
            return relabel(b, exp)
        if rem is not None:
            x = self.q(n[1], pos, mark, rem)
            y = self.q(n[2], pos, mark, rem)
            if x[0] == y[0] == "rec":
                reps = x[4] + [z for z in y[4] if z[1]]
                head = x if x[2] or not y[2] else y
                return relabel(head[:4] + (reps,), exp)
            if x[0] == "rec":
                return relabel(x, exp)
            if y[0] == "rec":
                return relabel(y, exp)
        return ("err", a[1], False, exp)

    def q_maybe(self, n, pos, mark, rem):
        r = self.q(n[1], pos, mark, None)
        if r[0] == "ok" or r[2]:
            return r
        return ("ok", None, pos, False, r[3])

    def q_many(self, n, pos, mark, rem):
        out, consumed = [], False
        while True:
            r = self.q(n[1], pos, mark, None)
            if r[0] != "ok":
                break
            if not r[3]:
                raise EmptyRepetition()
            consumed = True
            out.append(r[1])
            pos = r[2]
        if r[0] == "rec":
            return self.go_on(
                r, lambda v, p, m: self.q_many(n, p, mark, None),
                lambda a, b: out + [a] + b)
        if r[2]:
            return r
        return ("ok", out, pos, consumed, r[3])

    def q_attempt(self, n, pos, mark, rem):
        if rem is not None:
            return self.q(n[1], pos, mark, rem)
        r = self.sure.p(n[1], pos, mark)
        if r[0]:
            return ("ok",) + r[1:]
        return ("err", r[2], False, r[4])

    def q_label(self, n, pos, mark, rem):
        return relabel(self.q(n[2], pos, mark, rem), (n[1],))

    def q_recover(self, n, pos, mark, rem):
        r = self.q(n[1], pos, mark, rem)
        if r[0] == "rec":
            r = r[:4] + ([R((x[0], True) + x[2:]) for x in r[4]],)
        return r

    def q_recw(self, n, pos, mark, rem):
        return self.offer(self.q(n[3], pos, mark, rem), pos, rem, n[1],
                          repr(n[1]) if n[2] is None else n[2])

    def q_recf(self, n, pos, mark, rem):
        x = act_recf(n[1], pos)
        return self.offer(self.q(n[3], pos, mark, rem), pos, rem, x,
                          repr(x) if n[2] is None else n[2])

    def q_sepby(self, n, pos, mark, rem):
        return self.map(self.q_maybe(["maybe", ["seq", n[1], [
            "many", ["seqr", n[2], n[1]]]]], pos, mark, rem),
            lambda v: [] if v is None else [v[0]] + v[1])

    def chain(self, n, pos, mark, rem, fold):
        return self.map(self.q_seq(["seq", n[2], [
            "many", ["seqr", n[3], n[2]]]], pos, mark, rem),
            lambda v: fold([v[0]] + v[1]))

    def q_chainl(self, n, pos, mark, rem):
        def fold(xs):
            acc = xs[0]
            for x in xs[1:]:
                acc = act_op(n[1], acc, x)
            return acc
        return self.chain(n, pos, mark, rem, fold)

    def q_chainr(self, n, pos, mark, rem):
        def fold(xs):
            acc = xs[-1]
            for x in reversed(xs[:-1]):
                acc = act_op(n[1], x, acc)
            return acc
        return self.chain(n, pos, mark, rem, fold)

    def q_then(self, n, pos, mark, rem):
        r = self.map(self.q(n[1][0], pos, mark, rem), lambda v: (v,))
        for c in n[1][1:]:
            r = self.chainof(
                r, rem, lambda _, p, m, c=c: self.q(c, p, mark, m),
                lambda a, b: a + (b,))
        return r

    def q_apply(self, n, pos, mark, rem):
        return self.map(self.q_then(["then", n[2]], pos, mark, rem),
                        lambda v: act_apply(n[1], *v))

    def q_ref(self, n, pos, mark, rem):
        return self.q(self.rules[n[1]], pos, mark, rem)

    def q_block(self, n, pos, mark, rem):
        return self.q(n[1], pos, self.inp.col(pos), rem)

    def q_aligned(self, n, pos, mark, rem):
        if mark != self.inp.col(pos):
            return ("err", pos, False, ("indentation",))
        return self.q(n[1], pos, mark, rem)

    def q_indented(self, n, pos, mark, rem):
        c = self.inp.col(pos)
        if mark + n[1] != c:
            return ("err", pos, False, ("indentation",))
        return self.q(n[2], pos, c, rem)


class Raw:
    """Marks a value that is already normalised (for `pick`)."""

    def __init__(self, v):
        self.v = v


def _norm_raw(v):
    return v.v if isinstance(v, Raw) else norm(v)


def pick(v, n):  # noqa: F811 - final definition, accepts normalised values
    """Stable choice of a continuation from a value (for bind)."""
    return sum(ord(c) for c in repr(placeless(_norm_raw(v)))) % n
