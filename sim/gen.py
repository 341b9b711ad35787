"""Seeded generation of grammars, sentences and channel damage."""

import json

from . import lang

CHARS = "abcdxy"
PUNCT = ",;()[]+-"
DIGITS = "0123456789"
KINDS = ["num", "name", "op", "lp", "rp", "comma", "semi", "kw"]
KVALS = {
    "num": ["1", "22", "7"], "name": ["foo", "b", "zed"], "op": ["+", "*"],
    "lp": ["("], "rp": [")"], "comma": [","], "semi": [";"],
    "kw": ["let", "if"],
}


# regexps used with several groups: first characters, pattern, groups, texts
RE_POOL = [
    ("abcdxy", r"([a-dxy])([0-9]?)", [0, 1, 2], ["a", "b1", "x", "y7"]),
    ("abcd", r"(?P<w>[a-d]+)(?P<s>-?)", [0, 1, 2, "w", "s"],
     ["a", "ab-", "d", "c-"]),
    ("(", r"(\()([^)\n]*)(\))", [0, 1, 2, 3], ["()", "(a)", "(b,c)"]),
    (",;", r"([,;])(\s*)", [0, 1, 2], [",", "; ", ",\n", ";"]),
    ("[", r"\[(?:([a-z]+)|([0-9]*))\]", [0, 1, 2], ["[ab]", "[12]", "[]"]),
    # what stands around the match counts
    ("abcdxy", r"(?<![0-9,])([a-dxy])", [0, 1], ["a", "b", "x"]),
    ("abcdxy", r"\b[a-dxy]+", [0], ["a", "bc", "xa", "d"]),
    ("xy", r"(?i)([XY])(?![0-9])(-?)", [0, 1, 2], ["x", "y-", "x"]),
    # one match over line ends and hundreds of characters
    ("([", r"([\[(])([^\])]*)[\])]", [0, 1, 2],
     ["(\n)", "[a\n" + "x" * 300 + "]", "(" + "y" * 70 + ")",
      "[" + "\n" * 40 + "ab" * 150 + "]"]),
]


class Gen:
    """Random grammars.  family: 'chars' (any sequence), 'text' (str only),
    'tok' (lexer tokens)."""

    def __init__(self, rng, family, feats=None, layout=False, repairable=False,
                 wild=0.0, recursive=True):
        self.rng = rng
        self.family = family
        self.uid = 0
        self.layout = layout
        self.repairable = repairable
        self.wild = wild
        self.rules = {}
        self.open_refs = []
        self.recursive = recursive
        allf = ["fmap", "bind", "seql", "seqr", "seq", "alt", "maybe", "many",
                "attempt", "label", "recover", "recw", "recf", "sepby",
                "between", "chainl", "chainr", "then", "apply", "ref",
                "purefn", "pure"]
        if feats is None:
            # swarm: drop a random part of the features in every run
            keep = rng.choice([0.5, 0.8, 1.0])
            feats = [f for f in allf if rng.random() < keep]
        self.feats = set(feats) | {"seq", "alt"}
        if family == "tok":
            self.alpha = list(KINDS)
        else:
            self.alpha = list(CHARS + PUNCT)

    def nid(self):
        self.uid += 1
        return self.uid

    def has(self, f):
        return f in self.feats

    # -- terminals

    def lab(self, c):
        return None if self.rng.random() < 0.75 else self.rng.choice(
            ["<" + c + ">", "<" + c + ">", "item"])

    def term(self, first):
        rng = self.rng
        c = rng.choice(sorted(first))
        if self.family == "tok":
            r = rng.random()
            if r < 0.3 and not self.repairable:
                return ["tok", c]
            if r < 0.6:
                return ["tokins", c, rng.choice(
                    [KVALS[c][0], rng.choice(KVALS[c]), "?"])]
            v = rng.choice(KVALS[c])
            return ["tsym", c, v, rng.choice([repr(v), repr(v), c])]
        r = rng.random()
        if self.repairable:
            if self.family == "text" and r < 0.35:
                suf = "" if rng.random() < 0.5 else rng.choice(CHARS)
                return ["lit", c + suf]
            return ["sym", c, self.lab(c)]
        if self.family == "text":
            if r < 0.2:
                suf = "".join(
                    rng.choice(CHARS) for _ in range(rng.randrange(3)))
                return ["lit", c + suf]
            if r < 0.30:
                fit = [p for p in RE_POOL if set(p[0]) & set(first)]
                if fit:
                    _, pat, groups, ex = rng.choice(fit)
                    return ["re", pat, rng.choice(groups), list(ex)]
            if r < 0.42:
                q = "[" + "".join("\\" + x if x in "[]-" else x
                                  for x in sorted(first)[:3]) + "]"
                e = sorted(first)[0]
                j = rng.randrange(5)
                if j < 2:
                    return ["re", q + "[0-9]*", 0, [e + "1", e]]
                if j == 2:
                    # the value may be empty though the match is not
                    return ["re", q + "([0-9]*)", 1, [e + "1", e, e + "42"]]
                if j == 3:
                    # a group that need not take part: then no match
                    return ["re", q + "(?:([0-9])|_)", 1,
                            [e + "1", e + "1", e + "1", e + "_"]]
                return ["re", "(" + q + ")\\s*", 1,
                        [e + " ", e, e + "\n", e + " \n "]
                        + [e + "\n" * rng.choice([1, 30])
                           + " " * rng.choice([70, 300])] * (
                               rng.random() < 0.3)]
        if r < 0.65:
            return ["sym", c, self.lab(c)]
        k = rng.randrange(1, 1 + min(3, len(first)))
        cs = "".join(rng.sample(sorted(first), k))
        n = ["sat", cs, self.nid()]
        if rng.random() < 0.5 and self.has("label"):
            return ["label", "any of " + cs, n]
        return n

    # -- composite; result is not nullable, starts with `first`

    def node(self, depth, first):
        rng = self.rng
        if self.wild and rng.random() < self.wild:
            first = set(self.alpha)
        if depth <= 0:
            return self.term(first)
        opts = [k for k in ("fmap", "bind", "seql", "seqr", "seq", "alt",
                            "attempt", "label", "recover", "recw", "recf",
                            "between", "chainl", "chainr", "then", "apply",
                            "ref", "layout", "term", "rep", "lead")
                if k in ("layout", "term", "rep", "lead") or self.has(k)]
        opts += ["alt", "seq", "rep"]
        k = rng.choice(opts)
        if k == "term":
            return self.term(first)
        if k == "lead":
            # something that may be empty comes first
            fs = sorted(first)
            if len(fs) < 2:
                return self.node(depth - 1, first)
            rng.shuffle(fs)
            cut = rng.randrange(1, len(fs))
            o = self.opt(depth - 1, set(fs[:cut]))
            f2 = set(fs[cut:])
            j = rng.choice(["seq", "seql", "seqr", "bind", "bind", "apply"])
            if j == "bind" and self.has("bind"):
                return ["bind", self.nid(), o, [
                    self.node(depth - 1, f2)
                    for _ in range(rng.choice([1, 2]))]]
            if j == "apply" and self.has("apply"):
                return ["apply", self.nid(), [o, self.node(depth - 1, f2)]]
            return ["seq" if j in ("bind", "apply") else j, o,
                    self.node(depth - 1, f2)]
        if k == "layout":
            if not self.layout:
                return self.node(depth - 1, first)
            j = rng.choice(["block", "aligned", "indented"])
            if j == "indented":
                return [j, rng.choice([0, 1, 2]), self.node(depth - 1, first)]
            return [j, self.node(depth - 1, first)]
        if k == "fmap":
            return ["fmap", self.nid(), self.node(depth - 1, first)]
        if k == "bind":
            n = rng.choice([1, 2, 2, 3])
            return ["bind", self.nid(), self.node(depth - 1, first),
                    [self.rest(depth - 1) for _ in range(n)]]
        if k in ("seql", "seqr", "seq"):
            return [k, self.node(depth - 1, first), self.rest(depth - 1)]
        if k == "alt":
            if len(first) < 2:
                return self.node(depth - 1, first)
            if rng.random() < 0.06:
                return self.wide(first)
            if rng.random() < 0.04:
                u = ["unexp", self.name()]
                if rng.random() < 0.5:
                    u = ["seqr", self.opt(0, first), u]
                n = self.node(depth - 1, first)
                return ["alt"] + ([n, u] if rng.random() < 0.5 else [u, n])
            fs = sorted(first)
            rng.shuffle(fs)
            cut = rng.randrange(1, len(fs))
            a, b = set(fs[:cut]), set(fs[cut:])
            if rng.random() < 0.15:
                # both match: the first one wins
                b |= set(rng.sample(sorted(a), rng.randrange(
                    1, len(a) + 1)))
            na = self.node(depth - 1, a)
            nb = self.node(depth - 1, b)
            if self.has("attempt") and rng.random() < 0.2:
                nb = ["attempt", nb]
            if self.has("attempt") and rng.random() < 0.1:
                na = ["attempt", na]
            if self.has("attempt") and rng.random() < 0.25:
                # a common prefix that needs backtracking
                t = self.term(a)
                na = ["attempt", ["seq", t, self.rest(0)]]
                nb = ["seq", t, nb]
            return ["alt", na, nb]
        if k == "attempt":
            return ["attempt", self.node(depth - 1, first)]
        if k == "label":
            return ["label", self.name(), self.node(depth - 1, first)]
        if k == "recover":
            return ["recover", self.node(depth - 1, first)]
        if k == "recw":
            v = "R%d" % self.nid()
            if rng.random() < 0.12:
                v = rng.choice([None, 0, "", False, 1, [], v])
            return ["recw", v, self.ins_name("ins"),
                    self.node(depth - 1, first)]
        if k == "recf":
            return ["recf", self.nid(), self.ins_name("insf"),
                    self.node(depth - 1, first)]
        if k == "between":
            fs = sorted(first)
            o = self.term({rng.choice(fs)})
            return ["between", o, self.term(set(self.alpha)),
                    self.rest(depth - 1)]
        if k in ("chainl", "chainr"):
            arg = self.node(depth - 1, first)
            op = self.term(set(self.alpha) - set(first) or set(self.alpha))
            return [k, self.nid(), arg, op]
        if k in ("then", "apply"):
            n = rng.choice([2, 2, 3, 4, 5, 6, 7, 8])
            ps = [self.node(min(depth - 1, 1), first)]
            while len(ps) < n:
                r = rng.random()
                if r < 0.12 or len(ps) == n - 1 and r < 0.4:
                    # a part that may be missing, or has an empty value
                    ps.append(rng.choice([
                        ["maybe", self.rest(0)],
                        ["pure", rng.choice([None, 0, "", False, []])]]))
                    continue
                ps.append(self.rest(0) if n > 4 else self.rest(depth - 1))
            return ["then", ps] if k == "then" else ["apply", self.nid(), ps]
        if k == "ref":
            if self.recursive and self.open_refs and rng.random() < 0.6:
                # guarded recursion: something is consumed before the call
                r = rng.choice(self.open_refs)
                return ["between", self.term({rng.choice(sorted(first))}),
                        self.term(set(self.alpha)), ["ref", r]]
            name = "r%d" % self.nid()
            self.open_refs.append(name)
            self.rules[name] = self.node(depth - 1, first)
            self.open_refs.pop()
            return ["ref", name]
        # rep: required head, optional tail with a disjoint follower
        fs = set(first)
        others = sorted(set(self.alpha) - fs) or list(self.alpha)
        tail_first = set(rng.sample(others, max(1, len(others) // 2)))
        head = self.node(depth - 1, first)
        return ["seq", head, self.opt(depth - 1, tail_first)]

    def opt(self, depth, first):
        """Nullable element."""
        rng = self.rng
        if rng.random() < 0.2:
            n = self.empty_able(depth - 1, first)
            if n is not None:
                return n
        ks = [k for k in ("maybe", "many", "sepby") if self.has(k)]
        ks += [k for k in ("pure", "purefn") if self.has(k)]
        if not ks:
            ks = ["maybe"]
        k = rng.choice(ks)
        if k == "pure":
            return ["pure", "P%d" % self.nid()]
        if k == "purefn":
            return ["purefn", self.nid()]
        item = self.node(depth - 1, first)
        n = [k, item]
        if k == "sepby":
            n.append(self.term(set(self.alpha) - set(first) or
                               set(self.alpha)))
        r = rng.random()
        if r < 0.12 and self.has("label"):
            return ["label", self.name(), n]
        if r < 0.2 and self.has("fmap"):
            return ["fmap", self.nid(), n]
        if r < 0.24 and self.has("recover"):
            return ["recover", n]
        if r < 0.28 and self.has("attempt"):
            return ["attempt", n]
        return n

    def empty_able(self, depth, first):
        """Composite that may succeed on nothing."""
        rng = self.rng
        fs = sorted(first)
        rng.shuffle(fs)
        cut = rng.randrange(len(fs)) if len(fs) > 1 else 0
        a, b = set(fs[:cut]), set(fs[cut:])
        k = rng.choice(["alt", "alt", "alt", "tla", "seq", "bind", "apply",
                        "layout", "eof", "ref", "chain", "sepby", "wrap"])
        if k in ("alt", "tla", "seq", "bind", "apply") and not a:
            return None
        if k == "alt":
            return ["alt", self.node(depth, a), self.opt(depth, b)]
        if k == "tla":
            return ["alt", self.opt(depth, a), self.node(depth, b)]
        if k == "seq":
            return [rng.choice(["seq", "seql", "seqr"]), self.opt(depth, a),
                    self.opt(depth, b)]
        if k == "bind" and self.has("bind"):
            return ["bind", self.nid(), self.opt(depth, a), [
                self.opt(depth, b) for _ in range(rng.choice([1, 2]))]]
        if k == "apply" and self.has("apply"):
            return ["apply", self.nid(), [self.opt(depth, a),
                                          self.opt(depth, b)]]
        if k == "layout" and self.layout:
            j = rng.choice(["block", "aligned", "indented"])
            return [j] + [1] * (j == "indented") + [self.opt(depth, first)]
        if k == "eof":
            return ["alt", self.node(depth, first), ["eof"]]
        if k == "ref" and self.has("ref"):
            name = "r%d" % self.nid()
            self.open_refs.append(name)
            self.rules[name] = self.opt(depth, first)
            self.open_refs.pop()
            return ["ref", name]
        if k == "wrap":
            o = self.opt(depth, first)
            j = rng.choice(["recw", "recf", "recover", "attempt", "label"])
            if not self.has(j):
                return o
            if j == "recw":
                return [j, "R%d" % self.nid(), self.ins_name("ins"), o]
            if j == "recf":
                return [j, self.nid(), self.ins_name("insf"), o]
            return [j, self.name(), o] if j == "label" else [j, o]
        rest = set(self.alpha) - set(first)
        if k == "chain" and rest and self.has("chainl"):
            return [rng.choice(["chainl", "chainr"]), self.nid(),
                    self.opt(depth, first), self.term(rest)]
        if k == "sepby" and rest and self.has("sepby"):
            return ["sepby", self.opt(depth, first), self.term(rest)]
        return None

    def name(self):
        """What to call something in reports."""
        if self.rng.random() < 0.88:
            return "L%d" % self.nid()
        return self.rng.choice(["", "item", "a or b", "x, y", "%s {}", "L1"])

    def ins_name(self, s):
        r = self.rng.random()
        if r < 0.45:
            return None
        return "%s%d" % (s, self.uid) if r < 0.85 else self.rng.choice(
            ["", "", "item"])

    def wide(self, first):
        """Many alternatives."""
        ns = [self.term({c}) for c in sorted(first)]
        self.rng.shuffle(ns)
        while len(ns) > 1:
            i = self.rng.choice([0, 0, self.rng.randrange(len(ns) - 1)])
            ns[i:i + 2] = [["alt", ns[i], ns[i + 1]]]
        return ns[0]

    def rest(self, depth):
        """Any element in a non-initial place."""
        rng = self.rng
        al = set(self.alpha)
        if rng.random() < 0.3:
            part = set(rng.sample(self.alpha, max(2, len(self.alpha) // 2)))
            o = self.opt(depth, part)
            if rng.random() < 0.7:
                return ["seq", o, self.node(depth - 1, al - part)]
            return o
        return self.node(depth - 1, al)

    def grammar(self, depth, eof=True):
        first = set(self.rng.sample(self.alpha, self.rng.randrange(
            2, len(self.alpha))))
        start = self.node(depth, first)
        if self.rng.random() < 0.2:
            start = ["many", start]
        elif self.rng.random() < 0.2:
            start = ["sepby", start, self.term(set(self.alpha))]
        if self.rng.random() < 0.06:
            # the end, and more
            e = ["eof"]
            for _ in range(self.rng.choice([0, 1, 1, 2])):
                k = self.rng.choice(["label", "fmap", "alt", "attempt",
                                     "recover", "seq", "tla"])
                e = {"label": ["label", self.name(), e],
                     "fmap": ["fmap", self.nid(), e],
                     "alt": ["alt", self.term(set(self.alpha)), e],
                     "tla": ["alt", e, self.term(set(self.alpha))],
                     "attempt": ["attempt", e], "recover": ["recover", e],
                     "seq": ["seql", e, self.opt(1, set(self.alpha))]}[k]
            start = ["seq", ["seql", start, e], self.rest(1)]
        if eof:
            start = ["seql", start, ["eof"]]
        return {"rules": dict(self.rules), "start": start}


# --------------------------------------------------------------------------
# elements that are not characters

OBJECTS = [0, False, 0.0, 1, True, 1.0, "", "a", "ab", None, [], [0], [False],
           {}, {"k": 1}, -1, 2, 2.0, "0", "1", "None", [1, [2]], 256, 1e300,
           "\u00e9"]


def make_skin(rng):
    """What stands for each character of a grammar."""
    cs = list(CHARS + PUNCT)
    rng.shuffle(cs)
    if rng.random() < 0.25:
        a = rng.choice([0, 0, 97, 240])
        return dict(zip(cs, range(a, a + len(cs))))
    return dict(zip(cs, rng.sample(OBJECTS, len(cs))))


def put_skin(n, skin):
    if n[0] == "sym":
        return ["sym", skin[n[1]], n[2]]
    if n[0] == "sat":
        return ["sat", [skin[c] for c in n[1]], n[2]]
    ks = lang.kids(n)
    return lang.with_kids(n, [put_skin(c, skin) for c in ks]) if ks else n


def skinned(g, skin):
    return {"rules": {r: put_skin(n, skin) for r, n in g["rules"].items()},
            "start": put_skin(g["start"], skin)}


def fresh(g, tag):
    """The same grammar with names nobody has used before."""
    def f(n):
        ks = lang.kids(n)
        if ks:
            n = lang.with_kids(n, [f(c) for c in ks])
        k = n[0]
        if k == "sym":
            return n[:2] + [tag + (n[2] or "")]
        if k == "lit":
            return ["lit", n[1] + tag]
        if k == "re":
            return [k, n[1] + "(?#" + tag + ")"] + n[2:]
        if k == "label":
            return [k, n[1] + tag, n[2]]
        if k == "recw":
            return [k, "%s%s" % (n[1], tag)] + n[2:]
        if k == "pure":
            return [k, "%s%s" % (n[1], tag)]
        return n
    return {"rules": {r: f(n) for r, n in g["rules"].items()},
            "start": f(g["start"])}


# --------------------------------------------------------------------------
# grammars about columns

def twin(rng, n):
    """A copy that differs in one parameter of one node, or in nothing."""
    n = json.loads(json.dumps(n))
    spots = [x for x in lang.walk(n) if x[0] in TWINS]
    if spots and rng.random() < 0.9:
        k = rng.choice(sorted({x[0] for x in spots}))
        x = rng.choice([x for x in spots if x[0] == k])
        TWINS[k](rng, x)
    return n


def _set(i, *vals):
    def f(rng, n):
        v = [x for x in vals if x != n[i]]
        n[i] = rng.choice(v) if v else n[i]
    return f


def _either(*fs):
    return lambda rng, n: rng.choice(fs)(rng, n)


def _twin_re(rng, n):
    gs = [p[2] for p in RE_POOL if p[1] == n[1]]
    ok = [g for g in (gs[0] if gs else [0]) if any(
        m is not None and m.group(g) is not None
        for m in map(lang.TERMS.rx(n[1]).match, n[3]))]
    n[2] = rng.choice(ok)


TWINS = {
    "sym": _set(2, None, "item", "<twin>"),
    "sat": _set(2, "twin"), "re": _twin_re,
    "tokins": _set(2, "?", "twin"),
    "tsym": _set(3, "item", "<twin>"),
    "pure": _set(1, 0, 1, "", None, "tw"), "purefn": _set(1, "twin"),
    "fmap": _set(1, "twin"), "bind": _set(1, "twin"),
    "chainl": _set(1, "twin"), "chainr": _set(1, "twin"),
    "apply": _set(1, "twin"), "label": _set(1, "twin", "item"),
    "recw": _either(_set(1, "twin", 0, None, False),
                    _set(2, None, "twin", "item")),
    "recf": _either(_set(1, "twin"), _set(2, None, "twin", "item")),
    "indented": _set(1, 0, 1, 2),
}


def layout_grammar(rng):
    """A random text grammar dense in block, aligned and indented."""
    uid = [0]
    ws = {"nl": ["re", r"\n *", 0, ["\n", "\n ", "\n  ", "\n    "]],
          "sp": ["re", r" *", 0, ["", " ", "  ", "    "]],
          "any": ["re", r"\s*", 0, ["", " ", "\n", "\n  ", "\n    "]]}

    def word():
        w = word0()
        if rng.random() < 0.3:
            uid[0] += 1
            w = ["fmap", "f%d" % uid[0], w]
        return w

    def word0():
        j = rng.randrange(4)
        if j == 0:
            return ["re", r"[a-d]+", 0, ["a", "bc", "d"]]
        if j == 1:
            return ["lit", rng.choice(["a", "b;", "-", "x:"])]
        if j == 2:
            return ["seql", ["re", r"[a-d]", 0, list("abcd")],
                    ["lit", rng.choice([";", ":"])]]
        return ["sym", rng.choice("abcdxy-"), None]

    def lay(d):
        j = rng.randrange(5)
        if j == 4:
            return ["block", ["aligned", node(d - 1)]]
        if j == 0:
            return ["block", node(d - 1)]
        if j == 1:
            return ["indented", rng.choice([0, 1, 2, 2, 4]), node(d - 1)]
        return ["aligned", node(d - 1)]

    def gap():
        return ws[rng.choice(["nl", "nl", "sp", "any"])]

    def node(d):
        if d <= 0:
            return word()
        j = rng.randrange(11)
        if j < 3:
            return lay(d)
        if j == 3:
            return ["seq", node(d - 1), ["seqr", gap(), lay(d - 1)]]
        if j == 4:
            return ["seqr", gap(), lay(d - 1)]
        if j == 5:
            return ["seq", node(d - 1),
                    ["many", ["attempt", ["seqr", ws["nl"], lay(d - 1)]]]]
        if j == 6:
            return ["sepby", lay(d - 1), ws["nl"]]
        if j == 7:
            return ["seq", lay(d - 1), ["maybe", ["seqr", ws[rng.choice(
                ["nl", "sp"])], lay(d - 1)]]]
        if j == 8:
            return ["alt", lay(d - 1), lay(d - 1)]
        uid[0] += 1
        if j == 9:
            return [rng.choice(["attempt", "recover"]), node(d - 1)]
        return ["recw", "R%d" % uid[0], None, lay(d - 1)]
    for _ in range(50):
        s = node(rng.choice([3, 4, 5]))
        if rng.random() < 0.6:
            s = ["block", s]
        if rng.random() < 0.5:
            s = ["seqr", ws[rng.choice(["sp", "any"])], s]
        g = {"rules": {}, "start": ["seql", s, ["eof"]]}
        if rng.random() < 0.3:
            # recursion through a bracket
            g["rules"]["r"] = ["seq", word(), ["maybe", [
                "seqr", ["lit", "{"], ["seql", s, ["lit", "}"]]]]]
            g["start"] = ["seql", ["block", ["sepby", ["aligned", [
                "ref", "r"]], ws["nl"]]], ["eof"]]
        if lang.wellformed(g) and lang.size(g) <= 60:
            return g
    return {"rules": {}, "start": ["seql", ["block", ["sepby", [
        "aligned", word()], ws["nl"]]], ["eof"]]}


def has_layout(g):
    return any(n[0] in ("block", "aligned", "indented")
               for n in lang.all_nodes(g))


def progress(g, kind, items, locs=None):
    """How far a plain parse gets (to choose inputs that get somewhere)."""
    from . import build
    m = lang.Plain(g, build.make_input(kind, items, locs), 20000)
    try:
        r = m.run()
    except (lang.ModelBudget, RecursionError):
        return -1
    return len(items) + 1 if r[0] == "ok" else r[1] if r[0] == "err" else 0


def grammar(rng, family, layout=False, repairable=False, eof=None, depth=None,
            wild=None, recursive=True, feats=None):
    """One well formed random grammar of moderate size."""
    for _ in range(200):
        g = Gen(rng, family, layout=layout, repairable=repairable,
                wild=rng.choice([0, 0, 0.15]) if wild is None else wild,
                recursive=recursive, feats=feats)
        d = rng.choice([2, 3, 3, 4, 5]) if depth is None else depth
        e = (rng.random() < 0.85) if eof is None else eof
        res = g.grammar(d, e)
        if lang.wellformed(res) and 2 <= lang.size(res) <= 60:
            return res
    return {"rules": {}, "start": ["seql", ["many", g.term(set(g.alpha))],
                                   ["eof"]]}


# --------------------------------------------------------------------------
# realistic grammars

def _tp(v):
    k = {"{": "p", "}": "p", ":": "p", ",": "p", "[": "p", "]": "p"}[v]
    return ["tsym", k, v, repr(v)]


def lib_json_tok():
    string = ["fmap", "s", ["tok", "string"]]
    pair = ["seq", ["seql", ["recw", "a", "'\"a\"'", string], _tp(":")],
            ["ref", "value"]]
    dct = ["label", "object", ["between", _tp("{"), _tp("}"),
           ["fmap", "d", ["sepby", pair, _tp(",")]]]]
    lst = ["label", "list", ["between", _tp("["), _tp("]"),
           ["sepby", ["ref", "value"], _tp(",")]]]
    prim = ["alt", ["alt", ["fmap", "i", ["tok", "int"]],
                    ["fmap", "b", ["tok", "bool"]]], string]
    value = ["label", "value", ["alt", ["alt", ["recw", 1, None, prim],
             ["recover", dct]], ["recover", lst]]]
    return {"rules": {"value": value},
            "start": ["seql", ["ref", "value"], ["eof"]]}


def lib_json_text():
    ows = ["re", r"[ \n\t]*", 0, ["", " ", "\n "]]

    def t(pat, *ex):
        return ["re", pat + r"[ \n\t]*", 1, list(ex)]

    def p(c):
        return ["seql", ["lit", c], ows]
    string = ["fmap", "s", ["label", "string",
              t(r'"([a-z0-9]*)"', '"a"', '"bc" ', '""')]]
    integer = ["fmap", "i", ["label", "integer", t(r"(-?[0-9]+)", "1", "-20 ")]]
    boolean = ["label", "bool", t(r"(true|false)", "true", "false\n")]
    pair = ["seq", ["seql", ["recw", "a", "'\"a\"'", string], p(":")],
            ["ref", "value"]]
    dct = ["label", "object", ["between", p("{"), p("}"),
           ["fmap", "d", ["sepby", pair, p(",")]]]]
    lst = ["label", "list", ["between", p("["), p("]"),
           ["sepby", ["ref", "value"], p(",")]]]
    value = ["label", "value", ["alt", ["alt", ["recw", 1, None,
             ["alt", ["alt", integer, boolean], string]],
             ["recover", dct]], ["recover", lst]]]
    return {"rules": {"value": value},
            "start": ["seql", ["seqr", ows, ["ref", "value"]], ["eof"]]}


def lib_expr():
    sp = ["re", r"\s*", 0, ["", " ", "\n"]]
    num = ["seql", ["fmap", "n", ["re", r"\d+", 0, ["1", "20", "3"]]], sp]
    mul = ["seql", ["re", "[*]", 0, ["*"]], sp]
    add = ["seql", ["re", "[-+]", 0, ["+", "-"]], sp]
    par = ["between", ["seql", ["lit", "("], sp], ["seql", ["lit", ")"], sp],
           ["ref", "expr"]]
    e = ["chainl", 1, ["chainl", 2, ["alt", num, par], mul], add]
    return {"rules": {"expr": e},
            "start": ["seql", ["ref", "expr"], ["eof"]]}


def lib_pow():
    num = ["label", "number", ["fmap", "n", ["seq", ["digit"],
           ["many", ["digit"]]]]]
    par = ["between", ["sym", "(", None], ["sym", ")", None], ["ref", "expr"]]
    e = ["chainl", 1, ["chainr", 2, ["alt", ["recw", "0", None, num], par],
                       ["sym", "^", None]], ["sym", "+", None]]
    return {"rules": {"expr": e},
            "start": ["seql", ["ref", "expr"], ["eof"]]}


def lib_list():
    sp = ["many", ["sat", " \n\t", "sp"]]
    num = ["seql", ["label", "number", ["fmap", "n", ["seq", ["digit"],
           ["many", ["digit"]]]]], sp]
    return {"rules": {}, "start": ["seql", ["seqr", sp, [
        "sepby", ["recw", 0, None, num], ["seql", ["sym", ",", None], sp]]],
        ["eof"]]}


def lib_stmt():
    def k(kind):
        return ["tokins", kind, KVALS[kind][0]]
    semi = ["tsym", "semi", ";", "';'"]
    let = ["apply", "let", [["tsym", "kw", "let", "let"], k("name"),
           ["tsym", "op", "+", "'+'"], ["ref", "e"]]]
    cond = ["then", [["tsym", "kw", "if", "if"], ["ref", "e"],
            ["ref", "stmt"]]]
    e = ["chainl", "e", ["alt", ["alt", k("num"), ["tok", "name"]],
         ["between", ["tsym", "lp", "(", "'('"], ["tsym", "rp", ")", "')'"],
          ["ref", "e"]]], ["tsym", "op", "*", "'*'"]]
    return {"rules": {"e": e, "stmt": ["label", "statement",
                      ["alt", ["recover", ["seql", let, semi]], cond]]},
            "start": ["seql", ["many", ["ref", "stmt"]], ["eof"]]}


def lib_tags():
    """Matching of opening and closing tags through bind."""
    body = ["many", ["ref", "el"]]
    el = ["seqr", ["sym", "(", None], ["bind", "t", ["sat", "abc", "tag"], [
        ["seql", body, ["seqr", ["sym", "x", None], ["sym", ")", None]]],
        ["seql", body, ["seqr", ["sym", "y", None], ["sym", ")", None]]]]]]
    return {"rules": {"el": el}, "start": ["seql", body, ["eof"]]}


def lib_yaml():
    eol = ["re", r"\n\s*", 0, ["\n"]]
    ows = ["re", r"\s*", 0, [""]]
    ident = ["re", r"[a-z_][a-z_0-9]*", 0, ["foo", "b"]]
    colon = ["re", r"[ \t]*:[ \t]*", 0, [": ", ":"]]
    pairs = ["many", ["aligned", ["ref", "pair"]]]
    value = ["alt", ["seql", ident, ["alt", eol, ["eof"]]],
             ["seqr", eol, ["indented", 4, ["fmap", "v", ["seq",
              ["ref", "pair"], pairs]]]]]
    return {"rules": {"pair": ["seq", ["seql", ident, colon], value]},
            "start": ["seql", ["seqr", ows, ["fmap", "top", pairs]],
                      ["eof"]]}


def lib_offside():
    """block/aligned with insertable separators, so that repairs happen
    inside marked regions."""
    nl = ["re", r"\n *", 0, ["\n", "\n  "]]
    word = ["re", r"[a-d]+", 0, ["ab", "c"]]
    item = ["aligned", ["seq", ["seql", word, ["lit", ";"]],
            ["maybe", ["seqr", ["lit", "{"], ["seql", ["ref", "blk"],
             ["lit", "}"]]]]]]
    blk = ["block", ["sepby", item, nl]]
    return {"rules": {"blk": blk},
            "start": ["seql", ["ref", "blk"], ["eof"]]}


def lib_strings():
    """Quoted strings, empty ones included, glued together."""
    q = ["fmap", "q", ["re", r'"([a-z]*)"', 1, ['"a"', '""', '"bc"']]]
    word = ["re", r"[a-z]+(?:=([0-9]*))?", 1, ["a=", "b=1", "c=20"]]
    return {"rules": {}, "start": ["seql", ["many", ["alt", q, [
        "seq", word, ["maybe", q]]]], ["eof"]]}


LIB = {
    "strings": (lib_strings, "text"),
    "json_tok": (lib_json_tok, "tok"), "json_text": (lib_json_text, "text"),
    "expr": (lib_expr, "text"), "pow": (lib_pow, "chars"),
    "list": (lib_list, "chars"), "stmt": (lib_stmt, "tok"),
    "tags": (lib_tags, "chars"), "yaml": (lib_yaml, "text"),
    "offside": (lib_offside, "text"),
}

JSON_VALS = {"string": ["a", "bc"], "int": ["1", "20"], "bool": ["true"],
             "p": list("{}:,[]")}


def yaml_text(rng, depth=0, pad=0):
    out = []
    for _ in range(rng.randrange(1, 4)):
        key = rng.choice(["foo", "b", "c_1"])
        if depth < 3 and rng.random() < 0.4:
            d = rng.choice([4, 4, 4, 3, 5])
            out.append(" " * pad + key + ":\n" +
                       yaml_text(rng, depth + 1, pad + d))
        else:
            out.append(" " * pad + key + ": " + rng.choice("xyz") + "\n")
    return "".join(out)


def offside_text(rng, depth=0, pad=0):
    rows = []
    for _ in range(rng.randrange(1, 4)):
        s = rng.choice(["ab", "c", "dd"]) + ";"
        if depth < 2 and rng.random() < 0.4:
            s += "{" + offside_text(rng, depth + 1, pad + len(s) + 1) + "}"
        rows.append(s)
    return ("\n" + " " * pad).join(rows)


# --------------------------------------------------------------------------
# sentences

class TooBig(Exception):
    pass


class Sampler:
    """Random sentence of a grammar (with its value, for bind)."""

    def __init__(self, g, rng, limit=40, more=0):
        self.more = more            # how much longer repetitions get
        self.rules = g["rules"]
        self.rng = rng
        self.left = limit
        self.depth = 0

    def s(self, n):
        """-> (items, value)"""
        rng, k = self.rng, n[0]
        self.left -= 1
        if self.left < -400:
            raise TooBig()
        small = self.left < 0
        if k == "sym":
            return [n[1]], lang.elem(n[1])
        if k == "sat":
            c = rng.choice(n[1])
            return [c], lang.elem(c)
        if k == "digit":
            c = rng.choice(DIGITS)
            return [c], c
        if k == "letter":
            c = rng.choice(CHARS)
            return [c], c
        if k == "lit":
            return list(n[1]), n[1]
        if k == "re":
            t = rng.choice(n[3])
            m = lang.TERMS.rx(n[1]).match(t)
            return list(t), (m.group(n[2]) if m else None)
        if k in ("tok", "tokins"):
            v = rng.choice(KVALS.get(n[1]) or JSON_VALS[n[1]])
            return [(n[1], v)], lang.tk(n[1], v)
        if k == "tsym":
            return [(n[1], n[2])], lang.tk(n[1], n[2])
        if k == "eof":
            return [], None
        if k == "pure":
            return [], n[1]
        if k == "purefn":
            return [], lang.act_purefn(n[1])
        if k == "unexp":
            return [], None
        if k == "fmap":
            i, v = self.s(n[2])
            return i, lang.act_fmap(n[1], v)
        if k == "bind":
            i, v = self.s(n[2])
            j, w = self.s(n[3][lang.pick(v, len(n[3]))])
            return i + j, w
        if k in ("seq", "seql", "seqr"):
            i, v = self.s(n[1])
            j, w = self.s(n[2])
            return i + j, {"seq": (v, w), "seql": v, "seqr": w}[k]
        if k == "between":
            i, _ = self.s(n[1])
            j, v = self.s(n[3])
            h, _ = self.s(n[2])
            return i + j + h, v
        if k == "alt":
            opts = n[1:3]
            if small:
                opts = sorted(opts, key=lang_depth)[:1]
            return self.s(rng.choice(opts))
        if k == "maybe":
            if small or rng.random() < 0.4:
                return [], None
            return self.s(n[1])
        if k == "many":
            items, vs = [], []
            while not (self.left < 0) and rng.random() < max(
                    0.65, self.more):
                i, v = self.s(n[1])
                items += i
                vs.append(v)
            return items, vs
        if k == "sepby":
            items, vs = [], []
            if small or rng.random() < 0.15:
                return items, vs
            i, v = self.s(n[1])
            items, vs = items + i, [v]
            while not (self.left < 0) and rng.random() < max(
                    0.6, self.more):
                i, _ = self.s(n[2])
                j, v = self.s(n[1])
                items += i + j
                vs.append(v)
            return items, vs
        if k in ("chainl", "chainr"):
            i, v = self.s(n[2])
            items, vs = list(i), [v]
            while not (self.left < 0) and rng.random() < max(
                    0.6, self.more):
                i, _ = self.s(n[3])
                j, v = self.s(n[2])
                items += i + j
                vs.append(v)
            if k == "chainl":
                acc = vs[0]
                for x in vs[1:]:
                    acc = lang.act_op(n[1], acc, x)
            else:
                acc = vs[-1]
                for x in reversed(vs[:-1]):
                    acc = lang.act_op(n[1], x, acc)
            return items, acc
        if k in ("then", "apply"):
            items, vs = [], []
            for q in (n[1] if k == "then" else n[2]):
                i, v = self.s(q)
                items += i
                vs.append(v)
            return items, tuple(vs) if k == "then" else \
                lang.act_apply(n[1], *vs)
        if k == "ref":
            self.depth += 1
            if self.depth > 60:
                raise TooBig()
            r = self.s(self.rules[n[1]])
            self.depth -= 1
            return r
        return self.s(lang.kids(n)[0])


def lang_depth(n):
    ks = lang.kids(n)
    if n[0] == "ref":
        return 50
    return 1 + max([lang_depth(c) for c in ks], default=0)


def sentence(g, rng, limit=None, more=0):
    for _ in range(8):
        try:
            lim = rng.choice([5, 15, 30, 50]) if limit is None else limit
            return Sampler(g, rng, lim, more).s(g["start"])[0]
        except TooBig:
            limit = 5
    return []


# --------------------------------------------------------------------------
# the lossy channel

FAULTS = ("drop", "dup", "reorder", "corrupt", "truncate", "noise", "burst",
          "zero")


# characters that are not what they look like, or end no line
EXOTIC = ["\r", "\t", "\x0b", "\x0c", "\x85", "\u2028", "\ufeff", "\u00b2",
          "\u0663", "\u00e9", "\u0301", "\u00a0", "\ud800", "\U0001F600"]


def noise_item(rng, like, alphabet):
    if rng.random() < 0.1 and alphabet and all(
            isinstance(x, str) for x in alphabet):
        return rng.choice(EXOTIC)
    return rng.choice(alphabet) if alphabet else like


def damage(rng, items, alphabet, n, kinds=FAULTS):
    """Applies n channel faults; returns (items, trace)."""
    items = list(items)
    trace = []
    for _ in range(n):
        k = rng.choice(list(kinds))
        m = len(items)
        i = rng.randrange(m + 1)
        if k in ("drop", "dup", "corrupt", "reorder", "burst", "zero") and \
                i >= m:
            if m == 0:
                k = "noise"
            else:
                i = rng.randrange(m)
        x = None
        if k == "drop":
            del items[i]
        elif k == "dup":
            items.insert(i, items[i])
        elif k == "corrupt":
            x = noise_item(rng, None, alphabet)
            items[i] = x
        elif k == "reorder":
            j = min(m - 1, i + rng.choice([1, 1, 2, 4]))
            items.insert(j, items.pop(i))
            x = j
        elif k == "truncate":
            del items[i:]
        elif k == "noise":
            x = noise_item(rng, None, alphabet)
            items.insert(i, x)
        elif k == "burst":
            w = rng.choice([2, 3])
            del items[i:i + w]
            x = w
        elif k == "zero":
            x = ("?", "?") if items and isinstance(items[0], tuple) else "\0"
            items[i] = x
        trace.append([k, i, x])
    return items, trace


def apply_trace(items, trace):
    """Replays a recorded damage trace (used by the minimiser)."""
    items = list(items)
    for k, i, x in trace:
        m = len(items)
        if isinstance(x, list):
            x = tuple(x)
        if k == "noise":
            items.insert(min(i, m), x)
        elif k == "truncate":
            del items[i:]
        elif i >= m:
            continue
        elif k == "drop":
            del items[i]
        elif k == "dup":
            items.insert(i, items[i])
        elif k in ("corrupt", "zero"):
            items[i] = x
        elif k == "reorder":
            items.insert(min(x, m - 1), items.pop(i))
        elif k == "burst":
            del items[i:i + x]
    return items


def alphabet_of(g, family):
    """Items worth using as noise for a grammar."""
    out = []
    for n in lang.all_nodes(g):
        if n[0] == "sym":
            out.append(n[1])
        elif n[0] == "sat":
            out.extend(n[1])
        elif n[0] == "lit":
            out.extend(n[1])
        elif n[0] in ("tok", "tokins"):
            for v in (KVALS.get(n[1]) or JSON_VALS.get(n[1], ["?"])):
                out.append((n[1], v))
        elif n[0] == "tsym":
            out.append((n[1], n[2]))
        elif n[0] == "digit":
            out.extend("07")
        elif n[0] == "letter":
            out.extend("ab")
        elif n[0] == "re":
            for s in n[3]:
                out.extend(s)
    seen = {repr(x): x for x in out}
    out = [seen[k] for k in sorted(seen)]
    if family == "obj":
        return out + ["?", None, 0, True, 1.0, ""]
    if family == "tok":
        out.append(("?", "?"))
    elif family == "text":
        out += ["\n", "?"]
    else:
        out += ["?"]
    return out


def render_tokens(items, rng):
    """Gives (kind, value) tokens start/end locations in an imaginary text;
    -> list of ((pos,line,col),(pos,line,col))."""
    locs = []
    pos = line = col = 0
    for kind, v in items:
        gap = rng.choice(["", " ", " ", "\n", "  "])
        for ch in gap:
            pos += 1
            if ch == "\n":
                line, col = line + 1, 0
            else:
                col += 1
        start = (pos, line, col)
        pos += len(v)
        col += len(v)
        locs.append((start, (pos, line, col)))
    return locs
