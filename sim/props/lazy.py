"""C09: plain parsing of elements that arrive late, never, or fail;
C11: tokenising damaged text."""

import re

from .. import gen, lang, worlds
from .common import (Outcome, Prop, Runner, budgeted, gcase, icase, jround,
                     overlaps, sched, styles, with_length)

NEVER = 1e9
FLAKY = ["OSError", "TimeoutError", "ValueError", "KeyError", "RuntimeError",
         "InterruptedError", "BlockingIOError", "EOFError", "MemoryError",
         "TypeError", "AttributeError", "AssertionError"]


def need_of(plan, z, model=None):
    """Positions a plain parse has to look at, by the reference model."""
    from .. import build
    from ..world import fix_locs
    d = plan["inputs"][z["i"]]
    inp = build.make_input(d["kind"], d["items"], fix_locs(d.get("locs")))
    m = lang.Plain(plan["grammars"][0], inp)
    try:
        r = m.run()
    except lang.ModelBudget:
        return None, None, None
    need = set(m.touch)
    if inp.kind == "tok":
        # the location of a token is part of the token
        need |= {min(p, inp.n - 1) for p in m.at if inp.n}
    return r, need, inp


class C09(Prop):
    id = "C09"
    entry = "sim.worlds.execute_lazy"
    quick = 5000
    thorough = 150000
    rule = ("one run = one grammar and 1-3 inputs whose elements arrive on a "
            "random schedule, fail transiently or never arrive where the "
            "reference interpreter does not need them; 1-3 readers parse "
            "and retry until they have an answer; non-trivial when some "
            "element was not needed, or some read failed; distinct by hash "
            "of (workload, switch list)")

    def make(self, rng, tier):
        gc = gcase(rng, ("chars", "tok"))
        if rng.random() < 0.5 and gc["g"]["start"][0] == "seql":
            # without the end check more of the input is not needed
            gc["g"] = dict(gc["g"], start=gc["g"]["start"][1])
        n = rng.choice([1, 1, 2, 3])
        inputs = [icase(rng, gc, (0, 0, 1, 1, 2, 3), 40, ("seq", "tok"))
                  for _ in range(n)]
        lazies = []
        for i, d in enumerate(inputs):
            m = len(d["items"])
            z = {"i": i}
            if rng.random() < 0.4:
                # more data than the sentence
                alpha = gen.alphabet_of(gc["g"], gc["fam"])
                extra = [rng.choice(alpha)
                         for _ in range(rng.randrange(1, 6))]
                d["items"] = list(d["items"]) + extra
                if d["kind"] == "tok":
                    d["locs"] = gen.render_tokens(
                        [tuple(x) for x in d["items"]], rng)
                m = len(d["items"])
            t, at = 0.0, []
            step = rng.choice([0, 0.5, 3, 1000])
            for _ in range(m):
                t += rng.random() * step
                at.append(round(t if rng.random() < 0.9
                                else rng.random() * t, 3))
            z["at"] = at
            if rng.random() < 0.7:
                z["flaky"] = {str(rng.randrange(max(1, m))):
                              rng.choice([1, 1, 2, 4])
                              for _ in range(rng.choice([1, 1, 2, 4]))}
                z["exc"] = rng.choice(FLAKY)
            z["never"] = rng.random() < 0.8
            lazies.append(z)
        nt = rng.choice([1, 1, 2, 3])
        tasks = [[{"k": "attempts", "b": 0, "z": rng.randrange(n)}
                  for _ in range(rng.choice([1, 1, 2]))] for _ in range(nt)]
        st = styles(rng)
        if {i["kind"] for i in inputs} != {"seq"}:
            st &= 19
        st &= 19
        return jround({"grammars": [gc["g"]],
                       "builds": [{"g": 0, "style": st}], "inputs": inputs,
                       "lazies": lazies, "tasks": tasks, "name": gc["name"],
                       "policy": sched(rng, nt, clock=0)})

    def judge(self, plan, call):
        out = Outcome()
        run = Runner(call)
        needs, lazies = [], []
        for z in plan["lazies"]:
            r, need, inp = need_of(plan, z)
            if r is None:
                out.skipped = "model too large"
                return out
            needs.append((r, need, inp))
            z = dict(z)
            if z.get("never"):
                z["at"] = [a if j in need else NEVER
                           for j, a in enumerate(z["at"][:inp.n])]
            lazies.append(z)
        tasks = [[dict(op, max=2 + sum((lazies[op["z"]].get("flaky") or
                                        {}).values()))
                  for op in ops if op["z"] < len(lazies)]
                 for ops in plan["tasks"]]
        p = dict(plan, lazies=lazies, tasks=tasks)
        r = run.execute(with_length(p, 1500), self.entry)
        out.take(p, r)
        # replays start from the plan before the never-arriving elements
        # were chosen
        out.replay = dict(out.replay, lazies=plan["lazies"])
        if budgeted(out, r):
            return out
        idle = set()
        for z, (m, need, inp) in zip(lazies, needs):
            idle |= set(range(inp.n)) - need
            out.add(elements=inp.n, needed=len(need & set(range(inp.n))))
            if z.get("never"):
                out.fire({"never-arrives": len(set(range(inp.n)) - need)})
            out.fire({"late-arrival": sum(
                0 < a < NEVER for a in z.get("at", ()))})
        fails = 0
        for k, ops in enumerate(tasks):
            for op, got in zip(ops, r["ops"][k]):
                m, need, inp = needs[op["z"]]
                z = lazies[op["z"]]
                res = got["res"]
                what = "input %.200r, arrivals %.150r, failures %r" % (
                    inp.items, z.get("at"), z.get("flaky"))
                if m[0] == "empty":
                    continue
                if res[0] != "done":
                    out.bad("raised", "%s: %.300r" % (what, res))
                    continue
                _, ans, n, demand, now, failed = res
                fails += failed
                extra = set(demand) - need
                if extra:
                    out.bad("prefetch", "%s: read element(s) %r, the "
                            "grammar needs only %r" % (
                                what, sorted(extra), sorted(need)))
                if ans == ("gave-up",):
                    out.bad("retries", "%s: no answer after %d attempts" % (
                        what, n))
                    continue
                if m[0] == "ok":
                    ok = ans == (("val", m[1]),)
                else:
                    ok = ans[0][0] == "perr" and len(ans[0][1]) == 1 and \
                        ans[0][1][0][0] == inp.loc(m[1])
                if not ok:
                    out.bad("answer", "%s: attempt %d gave %.300r, expected "
                            "%.300r" % (what, n, ans, m))
                if n > sum((z.get("flaky") or {}).values()) + 1:
                    out.bad("retries", "%s: %d attempts" % (what, n))
                if now >= NEVER:
                    out.bad("stalled", "%s: answered at %g" % (what, now))
        out.add(failed_reads=fails)
        out.nontrivial = bool(idle) or fails > 0
        out.sample = {"input": str(needs[0][2].items)[:120],
                      "needed": sorted(needs[0][1])[:20],
                      "result": str(r["ops"][0])[:200]}
        return out

    def probes(self, st):
        return {k: st.get(k, 0) for k in ("failed_reads", "never-arrives",
                                          "late-arrival")}

    def shrink(self, plan):
        for c in super().shrink(plan):
            # arrival schedules follow the length of the input
            yield dict(c, lazies=[
                dict(z, at=z["at"][:len(c["inputs"][z["i"]]["items"])])
                for z in c["lazies"]])
        for k, z in enumerate(plan["lazies"]):
            for j in sorted(z.get("flaky") or {}):
                f = {a: b for a, b in z["flaky"].items() if a != j}
                yield dict(plan, lazies=plan["lazies"][:k] +
                           [dict(z, flaky=f)] + plan["lazies"][k + 1:])


# --------------------------------------------------------------------------

SPECS = [
    (r"(?P<num>[0-9]+)|(?P<op>[+*])|\s+",
     ["1", "23", "+", "*", " ", "\n", "\t", "\r\n"]),
    (r"(?P<name>[a-z_]+)|(?P<num>[0-9]+)|(?P<p>[{}:,\[\]])|[ \n\t]+",
     ["foo", "b", "7", "{", "}", ":", ",", " ", "\n", "\n\n  "]),
    (r"\"(?P<str>[^\"]*)\"|(?P<w>\w+)|[^\S\n]+|(?P<nl>\n)",
     ['"a"', '"x\ny"', '""', '"\n\n"', "w1", " ", "\n", "é"]),
    (r"(?P<line>[^\n]*\n)|(?P<rest>[^\n]+)",
     ["abc\n", "\n", "x y\n", "tail"]),
    (r"(?P<a>a)|(?P<b>b*)|(?P<c>c+)", ["a", "bb", "b", "ccc", "a"]),
    (r"(?P<x>x?)|(?P<y>y)", ["x", "x", "y"]),
    (r"(?P<com>/\*(?:.|\n)*?\*/)|(?P<id>\b[a-z]+\b)|(?P<n>(?<![a-z])\d+)"
     r"|\s+", ["/* a\nb */", "ab", "12", " ", "\n", "/**/"]),
    (r"(?P<two>==|<=)|(?P<one>[=<])|(?P<s>'(?:[^'\\]|\\.)*')|\s",
     ["==", "=", "<=", "<", "'a'", "'\\''", "'\n'", " ", "\n"]),
    (r"(?P<all>(?s:.+))", ["abc", "\n", "x\ny"]),
    (r"(?P<cr>\r\n?)|(?P<t>[^\r\n]+)|(?P<lf>\n)",
     ["\r\n", "\r", "a b", "\n", "é\u2028"]),
    (r"(?P<k>(?:if|do)(?=\s))|(?P<i>[a-z]+)|(?:\s+)",
     ["if ", "do\n", "ifx", "do", " "]),
    (r"", ["a"]),
]
TEXT_NOISE = list("\n\n\n\r\t \0\"'?/*+ab17") + ["\u2028", "\x0b", "\x85",
                                               "é", "\ud800", "\U0001F600",
                                               "\ufeff", "\ufeff", "\u00a0",
                                               "\u200b", "e\u0301", "\x0c",
                                               "\x1c", "\u2029"]


def lex(src, spec):
    """The reference: -> (tokens, None) | (tokens, error loc)"""
    out, pos = [], 0

    def loc(p):
        return (p,) + lang.line_col(src, p)
    rx = re.compile(spec)
    while pos < len(src):
        m = rx.match(src, pos)
        if m is None or m.end() == pos:
            return out, loc(pos)
        if m.lastgroup is not None:
            out.append((m.lastgroup, m.group(m.lastgroup), loc(pos),
                        loc(m.end())))
        pos = m.end()
    return out, None


# pieces of token specifications: pattern, texts it matches
PIECES = [
    (r"[a-z]+", ["foo", "b", "do"]), (r"[0-9]+", ["1", "20"]),
    (r"-?[0-9]+", ["-1", "7"]), (r"[-+*/]", ["+", "-", "/"]),
    (r"\w+", ["w1", "é2"]), (r"\n", ["\n"]), (r"\n+", ["\n", "\n\n"]),
    (r"\s", [" ", "\n"]), (r"[^\S\n]+", [" ", "\t "]),
    (r"'[^']*'", ["'a'", "''", "'\n'"]), (r"#[^\n]*", ["#x", "#"]),
    (r"(?s:<.*?>)", ["<a>", "<\n>", "<>"]), (r"[a-z]*", ["ab", "c"]),
    (r"\r?\n", ["\r\n", "\n"]), (r"(?:if|else)\b", ["if", "else"]),
    (r"a|ab", ["a", "ab"]), (r"(?:\\\n)+", ["\\\n"]), (r".", ["?", "x"]),
]
# ways to embed them; %s is the piece, %d makes names unique
FRAMES = [
    ("(?P<k%d>%s)", "", ""), ("(?P<k%d>%s)", "", ""),
    ("(?P<k%d>%s)\\s*", "", " \n"), ("\\s*(?P<k%d>%s)", "\n", ""),
    ("(?P<k%d>%s)\\n", "", "\n"), ("\\[(?P<k%d>%s)\\]", "[", "]"),
    ("(?:x%d){0}(?:%s)", "", ""), ("(?P<k%d>%s)(?=\\s|$)", "", " "),
    ("(?<![0-9])(?P<k%d>%s)", "", ""), ("\\b(?P<k%d>%s)", "", ""),
    ("(?m:^)(?P<k%d>%s)", "\n", ""), ("(?P<k%d>!?%s)", "!", ""),
    ("(?P<k%d>(?P<in>@)?%s)", "@", ""), ("(?P<k%d>%s)?;", "", ";"),
    ("^(?P<k%d>%s)", "", ""), ("(?P<k%d>\\n*)(?:%s)", "\n\n", ""),
    ("(?P<h%d>[!@])(?P<k%d>%s)", "!", ""), ("(?P<k%d>%s)(?P<t%d>;)", "", ";"),
    ("(?P<k%d>%s)(?P<t%d>;)?", "", ";"), ("(?P<o%d><(?P<k%d>%s)>)", "<", ">"),
]


def random_spec(rng):
    parts, ex, inner = [], [], False
    for j in range(rng.choice([1, 2, 3, 4, 6])):
        pat, texts = rng.choice(PIECES)
        frame, pre, post = rng.choice(FRAMES)
        if "<in>" in frame:
            if inner:
                continue
            inner = True
        if "|" in pat:
            pat = "(?:" + pat + ")"
        parts.append(frame.replace("%d", str(j)).replace("%s", pat))
        for t in texts:
            ex.append(rng.choice([pre, pre, ""]) + t +
                      rng.choice([post, post, ""]))
    if rng.random() < 0.6:
        parts.append(r"\s+")
        ex += [" ", "\n"]
    return "|".join(parts), ex


class C11(Prop):
    id = "C11"
    entry = "sim.worlds.execute_lex"
    quick = 8000
    thorough = 250000
    rule = ("one run = 1-3 texts sent through 0-6 byte faults (loss, "
            "duplication, reordering, corruption, truncation, noise, line "
            "ends and other control characters), split with 1-3 token "
            "specifications by 1-3 threads, by whole or piecewise, some "
            "runs interrupted or abandoned, some answers sent to another "
            "process (pickle, copy); every answer is compared with "
            "a reference splitter that recomputes locations from the start "
            "of the text; non-trivial when a text was non-empty; distinct "
            "by hash of (workload, switch list)")

    def make(self, rng, tier):
        ns = rng.choice([1, 1, 2, 3])
        specs = [rng.choice(SPECS) if rng.random() < 0.4 else
                 random_spec(rng) for _ in range(ns)]
        texts = []
        for _ in range(rng.choice([1, 2, 3])):
            ps = rng.choice(specs)[1]
            t = [rng.choice(ps) for _ in range(rng.choice(
                [0, 1, 3, 6, 10, 25] if rng.random() < 0.96 else
                [150, 400]))]
            t = list("".join(t))
            t, tr = gen.damage(rng, t, TEXT_NOISE, rng.choice(
                [0, 0, 1, 1, 2, 3, 6]))
            texts.append("".join(t))
        nt = rng.choice([1, 1, 2, 3])
        tasks = []
        for k in range(nt):
            ops = []
            for q in range(rng.choice([1, 2, 4, 6])):
                i, s = rng.randrange(len(texts)), rng.randrange(ns)
                if rng.random() < 0.6:
                    op = {"k": "split", "i": i, "s": s}
                    if rng.random() < 0.2:
                        op["mangle"] = True
                    if rng.random() < 0.25:
                        op["ship"] = rng.choice(worlds.SHIP)
                    if rng.random() < 0.2:
                        op["faults"] = [{
                            "at": "irq", "n": rng.randrange(1, 300),
                            "exc": "KeyboardInterrupt"}]
                else:
                    i, s = rng.randrange(len(texts)), rng.randrange(ns)
                    op = {"k": "iter", "i": i, "s": s,
                          "it": "%d.%d.%d" % (k, i, s),
                          "n": rng.choice([1, 1, 2, 4])}
                    if rng.random() < 0.15:
                        op["close"] = True
                ops.append(op)
            tasks.append(ops)
        return jround({"specs": [s[0] for s in specs], "texts": texts,
                       "tasks": tasks, "policy": sched(rng, nt)})

    def judge(self, plan, call):
        out = Outcome()
        run = Runner(call)
        r = run.execute(with_length(dict(plan, budget=3_000_000), 600),
                        self.entry)
        out.take(plan, r)
        if budgeted(out, r):
            return out
        ref = {}
        for k, ops in enumerate(plan["tasks"]):
            dead = set()
            for op, got in zip(ops, r["ops"][k]):
                key = (op["i"], op["s"])
                if key not in ref:
                    ref[key] = lex(plan["texts"][op["i"]],
                                   plan["specs"][op["s"]])
                toks, err = ref[key]
                res = got["res"]
                what = "%r on %.200r" % (plan["specs"][op["s"]],
                                         plan["texts"][op["i"]])
                if plan["texts"][op["i"]]:
                    out.nontrivial = True
                if got["fired"] or got["irq"]:
                    out.add(interrupted=1)
                    continue
                if op["k"] == "split":
                    out.add(splits=1, tokens=len(toks),
                            errors=err is not None)
                    want = ("toks", tuple(toks)) if err is None else \
                        ("lexerr", err)
                    if res[:2] != want:
                        out.bad("split", "%s: got %.500r, expected %.500r" % (
                            what, res, want))
                    elif err is not None and res[2] != \
                            "Lexing error at %d:%d" % (err[1] + 1,
                                                       err[2] + 1):
                        out.bad("message", "%s: %r" % (what, res))
                    continue
                if op["it"] in dead or res[0] == "no-iterator":
                    continue
                out.add(pulls=1)
                have = list(res[1]) if len(res) > 1 else None
                if res[0] == "lexerr":
                    dead.add(op["it"])
                    # how many tokens come out before the error is free
                    ok = err is not None and res[2] == err and \
                        have == toks[:len(have)]
                elif res[0] == "end":
                    dead.add(op["it"])
                    ok = err is None and have == toks
                elif res[0] == "part":
                    ok = have == toks[:len(have)]
                    if op.get("close"):
                        dead.add(op["it"])
                        # the next pull opens a new iterator
                        dead.discard(op["it"])
                else:
                    ok = False
                if not ok:
                    out.bad("iterator", "%s: got %.500r, expected %.400r %r"
                            % (what, res, toks, err))
        out.add(overlapping_pairs=overlaps(r["ops"]))
        out.sample = {"text": plan["texts"][0][:80], "spec": plan["specs"][0],
                      "got": str(r["ops"][0][0]["res"])[:200]}
        return out

    def shrink(self, plan):
        from .common import chunks, drop_range, shrink_policy, shrink_tasks
        yield from shrink_tasks(plan)
        yield from shrink_policy(plan)
        for k, t in enumerate(plan["texts"]):
            for a, b in chunks(len(t)):
                yield dict(plan, texts=plan["texts"][:k] +
                           [drop_range(t, a, b)] + plan["texts"][k + 1:])
