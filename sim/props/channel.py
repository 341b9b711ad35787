"""C07, C08, C10, C12: sentences sent through a lossy channel and parsed in
both modes; judged against the executable reference model."""

import re

from .. import gen, lang, world
from .common import (Outcome, Prop, Runner, bounded, budgeted, describe, gcase, icase,
                     jround, overlaps, parse_op, sched, styles, with_length)


def ids_of(plan, op):
    return plan["grammars"][plan["builds"][op["b"]]["g"]]


_SAFE = re.compile(r"[\x00-\x7f]*\Z")


class Channel(Prop):
    modes = (False, True)
    counts = (0, 1, 1, 1, 2, 2, 3, 4)
    ninputs = (4, 6, 8)
    fams = ("chars", "text", "tok")
    cap = 50
    long = 0.04

    def gcase(self, rng):
        return gcase(rng, self.fams,
                     focus="layout" if rng.random() < 0.12 else None)

    def options(self, rng, op, gc, i):
        return op

    def make(self, rng, tier):
        gc = self.gcase(rng)
        n = rng.choice(list(self.ninputs))
        long = rng.random() < self.long
        if long:
            # one long input in place of several short ones
            inputs = [self.long_case(rng, gc)]
            n = 1
        else:
            inputs = [icase(rng, gc, self.counts, self.cap,
                            faults=gc.get("faults", gen.FAULTS))
                      for _ in range(n)]
        st = styles(rng)
        if {i["kind"] for i in inputs} != {"seq"}:
            st &= 19
        nt = rng.choice([1, 1, 1, 2, 3])
        tasks = [[] for _ in range(nt)]
        for i in range(n):
            for rec in self.modes:
                op = parse_op(rng, 0, i, inputs[i]["kind"], rec=rec)
                op.pop("own", None)
                op = self.options(rng, op, gc, inputs[i])
                tasks[rng.randrange(nt)].append(op)
        tasks = [t for t in tasks if t]
        plan = {
            "grammars": [gc["g"]], "builds": [{"g": 0, "style": st}],
            "inputs": inputs, "tasks": tasks, "name": gc["name"],
            "policy": sched(rng, len(tasks))}
        if long:
            plan.update(long=True, budget=5_000_000)
        return jround(plan)

    def long_case(self, rng, gc):
        """The longest of some sentences with long repetitions."""
        best = None
        # longer than the stack is deep
        far = rng.random() < 0.15
        if far:
            gc["g"] = lang.flat_chains(gc["g"])
        for _ in range(6):
            try:
                if far:
                    i = icase(rng, dict(gc, more=0.9995), (0, 0, 0, 1), 3000,
                              limit=6000)
                else:
                    i = icase(rng, dict(gc, more=0.985), (0, 1, 1, 2), 700,
                              limit=rng.choice([150, 400, 1200]))
            except RecursionError:
                continue    # too deep to be derived
            if best is None or len(i["items"]) > len(best["items"]):
                best = i
        if best is None:
            best = icase(rng, gc, (0, 1), 60)
        if not far and rng.random() < 0.5 and best["kind"] != "tok":
            # a long stretch of noise
            al = gen.alphabet_of(gc["g"], gc["fam"])
            x = [rng.choice(al) for _ in range(rng.choice([1, 1, 2]))]
            x *= rng.choice([40, 150, 500])
            if best["kind"].startswith("str"):
                x = ["\n"] * rng.choice([0, 1, 1, 3]) + x
            at = rng.randrange(len(best["items"]) + 1)
            items = list(best["items"])
            items[at:at] = x[:900]
            best = dict(best, items="".join(items) if isinstance(
                best["items"], str) else items, dmg=best["dmg"] + ["flood"])
        return best

    def judge(self, plan, call):
        out = Outcome()
        plan = with_length(plan, 4000)
        run = Runner(call)
        plan, r = bounded(out, run, plan)
        if plan is None:
            return out
        out.take(plan, r)
        for i in plan["inputs"]:
            for k in i.get("dmg", ()):
                out.fire({"channel:" + k: 1})
        if budgeted(out, r):
            return out
        out.add(ops=sum(map(len, r["ops"].values())),
                overlapping_pairs=overlaps(r["ops"]))
        self.inputs = {}
        for k, ops in enumerate(plan["tasks"]):
            for op, got in zip(ops, r["ops"][k]):
                if plan.get("long") and self.too_deep(plan, op, got):
                    out.add(undecided=1)
                    continue
                self.each(plan, op, got, out)
        return out

    def too_deep(self, plan, op, got):
        """The stack has an end: nesting of the input uses it, and so does
        every place repaired in a repetition (see known_findings.txt)."""
        if got["res"][:2] != ("exc", "RecursionError"):
            return False
        if plan["grammars"][0]["rules"]:
            return True
        m = self.plain(plan, op["i"])[0]
        return op["rec"] and (m is None or m[0] == "err")

    def inp(self, plan, i):
        x = self.inputs.get(i)
        if x is None:
            from .. import build
            from ..world import fix_locs
            d = plan["inputs"][i]
            x = self.inputs[i] = build.make_input(
                d["kind"], d["items"], fix_locs(d.get("locs")))
        return x

    def plain(self, plan, i):
        key = ("plain", i)
        if key not in self.inputs:
            m = lang.Plain(plan["grammars"][0], self.inp(plan, i))
            try:
                r = m.run()
            except (lang.ModelBudget, RecursionError):
                r = None
            self.inputs[key] = (r, m)
        return self.inputs[key]

    def repairs(self, plan, op):
        key = ("repairs", op["i"], op.get("mi", 5))
        if key not in self.inputs:
            m = lang.Repairs(plan["grammars"][0], self.inp(plan, op["i"]),
                             op.get("mi", 5))
            try:
                self.inputs[key] = m.run()
            except (lang.ModelBudget, RecursionError):
                self.inputs[key] = None
        return self.inputs[key]

    def each(self, plan, op, got, out):
        raise NotImplementedError


def journal(report):
    """The repairs of a report as model operations."""
    return [(e[3][0], e[3][1], e[0]) if e[3] is not None else None
            for e in report]


class C07(Channel):
    id = "C07"
    quick = 6000
    thorough = 150000
    modes = (True,)
    level = "exploration"
    rule = ("one run = one grammar, 4-8 sentences each hit by 0-4 channel "
            "faults, parsed with recovery (any insertion limit) by 1-3 "
            "interleaved sessions; every journal is replayed on the "
            "received input by the reference grammar interpreter; "
            "non-trivial when at least one journal with a repair was "
            "replayed; distinct by hash of (workload, switch list)")

    def options(self, rng, op, gc, i):
        op.pop("mi", None)
        m = rng.choice([None, None, 0, 1, 2, 3, 5, 8])
        if m is not None:
            op["mi"] = m
        return op

    def each(self, plan, op, got, out):
        res = got["res"]
        inp = self.inp(plan, op["i"])
        if len(res) != 2 or res[0][0] not in ("val", "perr"):
            out.add(raised=1)
            return
        if not (res[0][0] == "perr" and res[1][0] == "val"):
            return
        rep = res[0][1]
        ops = journal(rep)
        out.add(journals=1, repairs=len(ops))
        if None in ops or not ops:
            out.bad("no-journal", "%s: recovered %.300r but reports %.400r"
                    % (describe(plan, op), res[1], rep))
            return
        for loc, loc_str, exp, o, msg in rep:
            lc = inp.kind in ("strlc", "tok")
            want = "%d:%d" % (loc[1] + 1, loc[2] + 1) if lc else str(loc[0])
            if loc_str != want:
                out.bad("location-text", "%s: %r shown as %r" % (
                    describe(plan, op), loc, loc_str))
                return
        try:
            vs = lang.Derive(plan["grammars"][0], inp, ops).values()
        except (lang.ModelBudget, RecursionError):
            out.add(undecided=1)
            return
        out.nontrivial = True
        if res[1][1] not in vs:
            out.bad("journal", "%s, limit %s: journal %.600r does not give "
                    "%.400r (it gives %.300r)" % (
                        describe(plan, op), op.get("mi"), ops, res[1][1],
                        vs[:3]))
        out.states.append(lang_shape(ops))
        out.sample = {"input": str(inp.items)[:200], "journal": ops[:6],
                      "value": str(res[1][1])[:200],
                      "channel": plan["inputs"][op["i"]]["dmg"]}

    def probes(self, st):
        return {k: st.get(k, 0) for k in ("journals", "repairs",
                                          "undecided", "raised")}


def lang_shape(ops):
    return "".join("i" if o[0] == "ins" else "s%d" % min(o[1], 9)
                   for o in ops)[:12]


class C08(Channel):
    id = "C08"
    quick = 6000
    thorough = 150000
    rule = ("one run = one grammar, 4-8 sentences each hit by 0-4 channel "
            "faults, each parsed plainly and with recovery by 1-3 "
            "interleaved sessions; plain outcomes are compared with the "
            "reference interpreter, recovering outcomes with the plain "
            "ones; non-trivial when both a sound and a damaged input were "
            "decided; distinct by hash of (workload, switch list)")

    def judge(self, plan, call):
        self.seen = set()
        out = super().judge(plan, call)
        out.nontrivial = "err" in self.seen
        return out

    def each(self, plan, op, got, out):
        res = got["res"]
        inp = self.inp(plan, op["i"])
        m, _ = self.plain(plan, op["i"])
        if m is None:
            out.add(undecided=1)
            return
        self.seen.add(m[0])
        out.add(**{"plain_" + m[0]: 1})
        if m[0] == "empty":
            return
        if m[0] == "ok":
            want = (("val", m[1]),) * (2 if op["rec"] else 1)
            if res != want:
                out.bad("sound-input", "%s: got %.500r, the grammar gives "
                        "%.400r" % (describe(plan, op), res, m[1]))
            return
        if res[0][0] != "perr" or not res[0][1]:
            out.bad("masked", "%s: the grammar rejects this at %r, got "
                    "%.500r" % (describe(plan, op), inp.loc(m[1]), res))
            return
        if not op["rec"]:
            rep = res[0][1]
            if len(rep) != 1 or rep[0][0] != inp.loc(m[1]) or \
                    rep[0][3] is not None:
                out.bad("wrong-place", "%s: reported %.500r, the grammar "
                        "stops at %r" % (describe(plan, op), rep,
                                         inp.loc(m[1])))
        elif len(res) != 2 or res[1][0] not in ("val", "perr") or \
                (res[1][0] == "perr" and res[1] != res[0]):
            out.bad("odd-result", "%s: %.600r" % (describe(plan, op), res))
        elif res[1][0] == "val":
            out.add(recovered=1)
        out.sample = {"input": str(inp.items)[:200], "model": str(m)[:200],
                      "got": str(res)[:300]}


# --------------------------------------------------------------------------

def finite(g):
    """Every rule derives some finite sentence."""
    ok = set()

    def fin(n):
        if n[0] == "ref":
            return n[1] in ok
        if n[0] == "alt":
            # whichever alternative an insertion enters must be finite
            return fin(n[1]) and fin(n[2])
        if n[0] in ("many", "maybe", "sepby"):
            return True
        return all(fin(c) for c in lang.kids(n))
    while True:
        new = {r for r, n in g["rules"].items() if fin(n)}
        if new == ok:
            return len(ok) == len(g["rules"]) and fin(g["start"])
        ok = new


INSERTABLE = ("sym", "lit", "tokins", "tsym")


def insertable(g):
    for n in lang.all_nodes(g):
        if n[0] in lang.TERMINALS and n[0] not in INSERTABLE + ("eof",):
            return False
        if n[0] in ("block", "aligned", "indented", "unexp"):
            return False
    return finite(g)


def spin_variant(rng, g):
    """Puts a repetition of something that accepts the empty string in."""
    r = rng.randrange(4)
    s = g["start"]
    body = s[1] if s[0] == "seql" and s[2] == ["eof"] else s
    if r == 0:
        new = ["many", ["maybe", body]]
    elif r == 1:
        new = ["sepby", ["maybe", body], ["pure", "P"]]
    elif r == 2:
        new = ["seq", body, ["many", ["pure", "P"]]]
    else:
        new = ["many", ["many", body]]
    return {"rules": g["rules"], "start": ["seql", new, ["eof"]]}


class C10(Channel):
    id = "C10"
    quick = 5000
    thorough = 120000
    counts = (0, 1, 1, 2, 3, 5, 8, 12)
    ninputs = (3, 5, 7)
    rule = ("one run = one grammar (a third fully insertable, a sixth with "
            "a repetition that can spin), 3-7 sentences each hit by 0-12 "
            "channel faults, parsed under a step budget with insertion "
            "limits from 0 to 60; non-trivial when a damaged input was "
            "parsed with recovery; distinct by hash of (workload, switch "
            "list)")

    def gcase(self, rng):
        r = rng.random()
        if r < 0.34:
            for _ in range(100):
                c = gcase(rng, self.fams, lib=0, layout=0, repairable=True)
                if insertable(c["g"]):
                    c["ins"] = True
                    return c
        c = gcase(rng, self.fams)
        if r > 0.84 and c["name"] is None:
            c["g"] = spin_variant(rng, c["g"])
        return c

    def options(self, rng, op, gc, i):
        op.pop("mi", None)
        m = 60 if gc.get("ins") and rng.random() < 0.7 else \
            rng.choice([None, 0, 1, 2, 3, 5, 8])
        if m is not None:
            op["mi"] = m
        return op

    def each(self, plan, op, got, out):
        res = got["res"]
        g = plan["grammars"][0]
        m, _ = self.plain(plan, op["i"])
        well = lang.wellformed(g)
        dmg = plan["inputs"][op["i"]]["dmg"]
        if op["rec"] and dmg:
            out.nontrivial = True
        if res[0] == "exc":
            out.add(raised=1)
            if well:
                out.bad("raised", "%s: %r" % (describe(plan, op), res))
            elif res[1] != "RuntimeError":
                out.bad("raised", "%s: %r" % (describe(plan, op), res))
            return
        if m is not None and m[0] == "empty":
            out.bad("spin-accepted", "%s: repetition of an empty match gave "
                    "%.300r" % (describe(plan, op), res))
            return
        if not op["rec"] or res[0][0] != "perr":
            return
        limit = op.get("mi", 5)
        rep = res[0][1]
        run_, last = 0, None
        for e in rep:
            if e[3] is not None and e[3][0] == "ins":
                run_ = run_ + 1 if e[0] == last else 1
                last = e[0]
                if run_ > limit:
                    out.bad("limit", "%s: %d insertions in a row at %r, "
                            "limit %d" % (describe(plan, op), run_, last,
                                          limit))
                    return
                out.states.append("run of %d insertions" % run_)
            else:
                run_, last = 0, None
        if res[1][0] == "val":
            out.add(recovered=1)
        elif limit == 60 and insertable(g) and well:
            out.bad("gave-up", "%s: no repair although every terminal can "
                    "be inserted: %.400r" % (describe(plan, op), res))
        out.sample = {"input": str(plan["inputs"][op["i"]]["items"])[:200],
                      "limit": limit, "channel": dmg,
                      "steps": got["steps"]}


class C12(Channel):
    id = "C12"
    quick = 5000
    thorough = 120000
    counts = (0, 0, 0, 1, 1, 2)
    rule = ("one run = one grammar with actions, 4-8 sentences each hit by "
            "0-2 channel faults, parsed plainly and with recovery by 1-3 "
            "interleaved sessions; the recorded action calls are compared "
            "with the reference interpreter; non-trivial when a parse ran "
            "at least one action; distinct by hash of (workload, switch "
            "list)")

    def gcase(self, rng):
        for _ in range(20):
            c = gcase(rng, self.fams)
            if set(lang.kinds_of(c["g"])) & {"fmap", "bind", "chainl",
                                             "chainr", "apply", "purefn"}:
                return c
        return c

    def each(self, plan, op, got, out):
        m, model = self.plain(plan, op["i"])
        if m is None or m[0] == "empty" or got["res"][0] in ("exc",):
            return
        if op["rec"] and m[0] != "ok":
            return
        want, have = model.actions, [tuple(x) for x in got["log"]]
        if want:
            out.nontrivial = True
        out.add(actions=len(want))
        # the folding of operators may happen at any time after the chain
        # is complete; everything else happens in input order
        w1 = [a for a in want if a[0] != "op"]
        h1 = [a for a in have if a[0] != "op"]
        if w1 != h1:
            out.bad("actions", "%s: ran %.500r, the accepted path has "
                    "%.500r" % (describe(plan, op), h1, w1))
        else:
            w2 = sorted(repr(a) for a in want if a[0] == "op")
            h2 = sorted(repr(a) for a in have if a[0] == "op")
            if w2 != h2:
                out.bad("operators", "%s: applied %.500r, expected %.500r"
                        % (describe(plan, op), h2, w2))
        out.sample = {"input": str(plan["inputs"][op["i"]]["items"])[:200],
                      "actions": str(want)[:300]}


def sentence_of(loc_str, expected, op):
    """The documented wording of one error."""
    what = "unexpected input"
    if expected:
        what = "expected " + (
            expected[0] if len(expected) == 1 else
            ", ".join(expected[:-1]) + " or " + expected[-1])
    fix = ""
    if op is not None and op[0] == "skip":
        fix = " (skipped %d token%s)" % (op[1], "" if op[1] == 1 else "s")
    elif op is not None:
        fix = " (inserted %s)" % op[1]
    return "at %s: %s%s" % (loc_str, what, fix)


def once(labels):
    return list(dict.fromkeys(labels))


class C15(Channel):
    id = "C15"
    quick = 9000
    thorough = 150000
    counts = (0, 1, 1, 1, 2, 2, 3)

    def options(self, rng, op, gc, i):
        op.pop("mi", None)
        m = rng.choice([None, None, None, 0, 0, 1, 2, 5])
        if m is not None:
            op["mi"] = m
        return op

    rule = ("one run = one grammar, 4-8 sentences each hit by 0-3 channel "
            "faults, each parsed plainly and with recovery by 1-3 "
            "interleaved sessions; the labels, place and wording of the "
            "first complaint are compared with the reference interpreter; "
            "non-trivial when a damaged input with at least one label was "
            "judged; distinct by hash of (workload, switch list)")

    def each(self, plan, op, got, out):
        res = got["res"]
        inp = self.inp(plan, op["i"])
        m, model = self.plain(plan, op["i"])
        if m is None:
            out.add(undecided=1)
            return
        if m[0] != "err" or res[0][0] != "perr" or not res[0][1]:
            # whether there is a complaint at all is C08's question
            return
        rep = res[0][1]
        want = once(m[2])
        out.add(reports=1, labels=len(want))
        if want:
            out.nontrivial = True
        lc = inp.kind in ("strlc", "tok")
        for loc, loc_str, exp, o, msg in rep:
            text = "%d:%d" % (loc[1] + 1, loc[2] + 1) if lc else str(loc[0])
            if loc_str != text or msg != sentence_of(text, exp, o):
                out.bad("wording", "%s: %r, %r, %r is worded %r, %r" % (
                    describe(plan, op), loc, exp, o, loc_str, msg))
                return
        first = rep[0]
        if op["rec"]:
            self.every(plan, op, inp, rep, out)
        if op["rec"] and model.rewound:
            # where recovery is possible attempt() does not go back
            out.add(rewound=1)
            return
        code = "recovering-" if op["rec"] else ""
        if first[0] != inp.loc(m[1]):
            out.bad(code + "place", "%s: complains at %r, stopped at %r" % (
                describe(plan, op), first[0], inp.loc(m[1])))
        elif once(first[2]) != want:
            out.bad(code + "labels", "%s: at %r expected %r, tried there: %r"
                    % (describe(plan, op), first[0], first[2], want))
        out.states.append(len(want))
        out.sample = {"input": str(inp.items)[:200], "report": str(rep)[:300],
                      "tried": want}

    def every(self, plan, op, inp, rep, out):
        """All complaints of a parse that was repaired, when the repairs are
        those of the model (whether they are is C16's question)."""
        m = self.repairs(plan, op)
        if m is None:
            out.add(undecided=1)
            return
        if m[0] == "rec":
            want = [(o[0], o[1], inp.loc(o[2])) for o in m[1][3]]
            labels = [once(o[3]) for o in m[1][3]]
        elif m[0] == "err":
            want, labels = [None], [once(m[2])]
        else:
            return
        if journal(rep) != want:
            return
        if m[0] == "err" and rep[0][0] != inp.loc(m[1]):
            out.bad("unrepaired-place", "%s: complains at %r, stopped at %r "
                    "for good" % (describe(plan, op), rep[0][0],
                                  inp.loc(m[1])))
            return
        out.add(complaints=len(want))
        for e, exp in zip(rep, labels):
            if once(e[2]) != exp:
                out.bad("repair-labels", "%s: at %r expected %r, tried "
                        "there: %r (of %.400r)" % (
                            describe(plan, op), e[0], e[2], exp,
                            rep))
                return

    def probes(self, st):
        return {k: st.get(k, 0) for k in ("reports", "labels", "undecided")}


class C16(Channel):
    id = "C16"
    quick = 10000
    thorough = 150000
    modes = (True,)
    counts = (0, 1, 1, 1, 2, 2, 3, 4)
    rule = ("one run = one grammar, 4-8 sentences each hit by 0-4 channel "
            "faults, parsed with recovery (insertion limits 0-8) by 1-3 "
            "interleaved sessions; the repairs reported and the value are "
            "compared with the choice of a reference model that lists every "
            "candidate; non-trivial when a choice among two or more "
            "candidates was judged; distinct by hash of (workload, switch "
            "list)")

    def options(self, rng, op, gc, i):
        op = C07.options(self, rng, op, gc, i)
        if gc.get("tight"):
            op["mi"] = rng.choice([1, 1, 2, 3])
        return op

    def gcase(self, rng):
        r = rng.random()
        if r < 0.2:
            # several insertions at and around the limit, and what goes on
            # after them
            gc = gcase(rng, self.fams, lib=0, layout=rng.choice([0, 0, 1]),
                       repairable=True, depth=rng.choice([3, 4, 5]), wild=0,
                       feats=["recf", "attempt", "recover", "seql", "ref", "maybe",
                              "then", "many"] + ["recw", "label", "bind"] *
                       rng.randrange(2))
            return dict(gc, tight=True, faults=["drop", "drop", "corrupt",
                                                "noise"])
        if r < 0.6:
            return gcase(rng, self.fams, lib=0.1, layout=0.1,
                         repairable=True)
        return super().gcase(rng)

    def each(self, plan, op, got, out):
        res = got["res"]
        inp = self.inp(plan, op["i"])
        if len(res) != 2 or res[0][0] != "perr":
            # raised, or nothing to repair
            return
        m = self.repairs(plan, op)
        if m is None:
            out.add(undecided=1)
            return
        if m[0] not in ("err", "rec"):
            return
        out.add(**{"model_" + m[0]: 1})
        if m[0] == "err":
            if res[1][0] == "val" or any(e[3] is not None for e in res[0][1]):
                out.bad("needless", "%s, limit %s: nothing can be repaired, "
                        "got %.600r" % (describe(plan, op), op.get("mi"),
                                        res))
            return
        rep, num = m[1], m[2]
        out.add(candidates=num)
        if num > 1:
            out.nontrivial = True
        want = [(o[0], o[1], inp.loc(o[2])) for o in rep[3]]
        if res[1][0] != "val":
            out.bad("unrepaired", "%s, limit %s: %d repairs exist, the best "
                    "is %.400r, got %.400r" % (
                        describe(plan, op), op.get("mi"), num, want, res))
            return
        have = journal(res[0][1])
        if have != want:
            out.bad("choice", "%s, limit %s: of %d repairs the best is "
                    "%.400r, got %.400r" % (
                        describe(plan, op), op.get("mi"), num, want, have))
        elif res[1][1] != lang.norm(rep[4]):
            out.bad("value", "%s, limit %s: %.400r gives %.400r, got %.400r"
                    % (describe(plan, op), op.get("mi"), want,
                       lang.norm(rep[4]), res[1][1]))
        out.states.append(lang_shape(want))
        out.sample = {"input": str(inp.items)[:200], "candidates": num,
                      "chosen": str(want)[:200]}

    def probes(self, st):
        return {k: st.get(k, 0) for k in ("model_rec", "model_err",
                                          "candidates", "undecided")}


_ = (gen, world, _SAFE, ids_of)
