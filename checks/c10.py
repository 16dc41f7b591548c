"""C10: compilation fails only in documented ways and rejects meaningless programs."""
from __future__ import annotations

from .common import *
from sa import bigfam, forms, g4, macrofam, reject
from sa.driver import REPO
from sa.project import as_project

RULE = ("(a) Every statement, routine, macro and import derivable from the grammars up to the depth of the tier, in routine, macro, loop, case and SsbScript places, every one-token corruption of a program "
        "and every call depth at which the stack may run out ends in a result or in ParseError, SsbCompilerError or ValueError. (b) Every program of the offence x place families is rejected.")

DOCUMENTED = ("ParseError", "SsbCompilerError", "ValueError")


def documented(r):
    e = r.exc.value
    if isinstance(e, BaseException):
        return isinstance(e, ValueError)
    return any(c.name in DOCUMENTED for c in e.cls.mro)


DEFS = "macro mac() { m1(); } macro other() { m2(); } "
PLACES = {
    "routine": lambda s: DEFS + "def 0 { @abc; @actor; @Jump; o(); " + s + " p(); }",
    "macro": lambda s: DEFS + "macro x() { @abc; @actor; @Jump; " + s + " p(); } def 0 { ~x(); o(); ~x(); }",
    "case in loop": lambda s: DEFS + "def 0 { @abc; @actor; @Jump; forever { switch ($a) { case 1: " + s + " case 2: p(); } } }",
    "loop in case": lambda s: DEFS + "coro C { @abc; @actor; @Jump; switch ($a) { case 1: while (debug) { " + s + " } default: p(); } }",
    "only": lambda s: "def 0 { " + s + " }",
    "uncalled macro": lambda s: "macro x($v) { " + s + " } def 0 { o(); }",
    "last in if": lambda s: DEFS + "def 0 { @abc; @actor; @Jump; if (debug) { " + s + " } }",
    "with": lambda s: DEFS + "def 0 { @abc; @actor; @Jump; with (actor 1) { " + s + " } }",
    "for": lambda s: DEFS + "def 0 { @abc; @actor; @Jump; for (" + s + " debug; " + s + ") { p(); } }",
    "else": lambda s: DEFS + "def 0 { @abc; @actor; @Jump; if (debug) { " + s + " } else { " + s + " } " + s + " }",
    "header": lambda s: DEFS + "def 0 { @abc; @actor; @Jump; } " + s,
}
SSBS = "// is-ssb-script: true\n//?: is-ssb-script: true\n"


def text_of(toks):
    return " ".join(t for t in toks if t)


def grammar_items(tier):
    q = tier == "quick"
    G = g4.Grammar(REPO, "ExplorerScript")
    out = []
    names = list(PLACES)
    seen = set()
    for k, t in enumerate(g4.uniq(v for v in G.variants(("r", "stmt"), 6 if q else 8, {}) if v is not None)):
        s = text_of(t)
        ps = [names[k % 6]] if q else [names[k % 6], names[(k + 3) % 6]]
        if len(t) < 14:
            ps = ps + [p for p in ("routine", "macro", "with", "for", "else", "case in loop") if p not in ps]
        for p in ps:
            if p in ("with", "for") and not s.endswith(";"):
                continue
            out.append((f"grammar stmt {k} in {p}", PLACES[p](s)))
    for rule in ("import_stmt", "macrodef", "funcdef", "start"):
        for k, t in enumerate(g4.uniq(v for v in G.variants(("r", rule), 6 if q else 7, {}) if v is not None)):
            if rule == "start" and q and len(t) > 40:
                continue
            if q and k > 400 and h32(f"{rule}{k}") % 6:
                continue
            s = text_of(t)
            out.append((f"grammar {rule} {k}", s if rule in ("start", "import_stmt") else PLACES["header"](s).replace("def 0 {", "", 1).replace("@abc; @actor; @Jump; } ", "") if rule == "funcdef" else PLACES["header"](s)))
    S = g4.Grammar(REPO, "SsbScript")
    for k, t in enumerate(g4.uniq(v for v in S.variants(("r", "start"), 9 if q else 11, {}) if v is not None)):
        if q and k > 400 and h32(f"s{k}") % 4:
            continue
        out.append((f"ssbscript {k}", SSBS + text_of(t)))
    for k, t in enumerate(g4.uniq(v for v in S.variants(("r", "stmt"), 8 if q else 10, {}) if v is not None)):
        s = text_of(t)
        out.append((f"ssbscript stmt {k}", SSBS + "def 0 { @abc; @actor; @Jump; " + s + " o(); } def 1 { " + ("alias previous; }" if k % 2 else s + " }")))
    return out


LEXEMES = ["", "(", ")", "{", "}", "[", "]", "<", ">", ",", ";", ":", "=", "==", "@", "§", "~m", "$v", "abc", "5", "-5", "1.5", "0x1F", '"s"', '"""m"""', "'", '"', '"""', "\\", "/*", "//", "*/", "\x00", "\u2028", "\U0001f600", "#",
           "not", "||", "if", "else", "elseif", "switch", "case", "default", "for", "while", "forever", "with", "macro", "def", "coro", "import", "alias", "previous", "return", "jump", "call", "scn", "value", "menu", "debug", "random",
           "Position", "TRUE", "&<<", "for_actor", "actor", "message_SwitchTalk", "dungeon_mode", "clear", "reset", "init", "break", "continue", "007", "-0", ".5", "-.5", "0b2", "99999999999999999999", "é", "\r", "\f", "\t"]

BASES = {
    "exps": ["macro", "m", "(", "$p", ")", "{", "o", "(", "$p", ")", ";", "return", ";", "}", "def", "0", "{", "~m", "(", "5", ")", ";", "if", "(", "not", "$PERF", "[", "3", "]", "||", "scn", "(", "$s", ")", "<", "[", "1", ",", "2", "]", ")", "{", "@", "l", ";", "}",
             "elseif", "(", "debug", ")", "{", "jump", "@", "l", ";", "}", "else", "{", "a", "(", "1.5", ",", '"s"', ",", "{", "english", "=", '"e"', ",", "}", ",", "Position", "<", '"m"', ",", "1", ",", "2.5", ">", ")", ";", "}",
             "switch", "(", "random", "(", "3", ")", ")", "{", "case", ">", "value", "(", "$x", ")", ":", "b", "<", "actor", "1", ">", "(", ")", ";", "break", ";", "case", "menu", "(", '"m"', ")", ":", "default", ":", "end", ";", "}",
             "message_SwitchTalk", "(", "$x", ")", "{", "case", "1", ":", '"t"', "default", ":", '"u"', "}", "for", "(", "$i", "=", "0", ";", "$i", "<", "5", ";", "$i", "+=", "1", ";", ")", "{", "continue", ";", "}",
             "while", "(", "not", "edit", ")", "{", "break_loop", ";", "}", "with", "(", "object", "2", ")", "{", "$z", "[", "3", "]", "=", "1", ";", "}", "$s", "=", "scn", "[", "1", ",", "2", "]", ";", "call", "@", "l", ";", "}",
             "def", "1", "for", "actor", "(", "N", ")", "{", "alias", "previous", ";", "}", "def", "2", "for_object", "(", "3", ")", "{", "forever", "{", "dungeon_mode", "(", "D", ")", "=", "1", ";", "}", "}"],
    "imp": ["import", '"./a.exps"', ";", "def", "0", "{", "~k", "(", ")", ";", "}"],
    "coro": ["coro", "N", "{", "o", "(", ")", ";", "}", "coro", "M", "{", "alias", "previous", ";", "}"],
    "ssbs": ["def", "0", "{", "@", "l", ";", "o", "(", "1", ",", "C", ",", "1.5", ",", '"s"', ",", "{", "english", "=", '"e"', ",", "}", ",", "Position", "<", '"m"', ",", "1", ",", "2.5", ">", ")", ";", "Jump", "(", "@", "l", ")", ";", "}",
             "def", "1", "for", "actor", "N", "{", "alias", "previous", ";", "}", "def", "2", "for_object", "(", "3", ")", "{", "Branch", "(", "$x", ",", "1", ",", "@", "l", ")", ";", "}"],
}


def corruptions(tier):
    for bn, b in BASES.items():
        pre = SSBS if bn == "ssbs" else ""
        yield f"base {bn}", pre + " ".join(b)
        for i in range(len(b)):
            yield f"{bn}: drop {i}", pre + " ".join(b[:i] + b[i + 1 :])
            yield f"{bn}: double {i}", pre + " ".join(b[: i + 1] + b[i:])
            yield f"{bn}: cut {i}", pre + " ".join(b[:i])
            if i:
                yield f"{bn}: swap {i}", pre + " ".join(b[: i - 1] + [b[i], b[i - 1]] + b[i + 1 :])
            n = 6 if tier == "quick" else 30
            for k in range(n):
                x = LEXEMES[h32(f"{bn}{i}{k}") % len(LEXEMES)]
                yield f"{bn}: {i} -> {x!r}", pre + " ".join(b[:i] + [x] + b[i + 1 :])
                y = LEXEMES[h32(f"i{bn}{i}{k}") % len(LEXEMES)]
                yield f"{bn}: {i} + {y!r}", pre + " ".join(b[:i] + [y] + b[i:])
    for x in LEXEMES:
        yield f"alone {x!r}", x
        yield f"alone ssbs {x!r}", SSBS + x
        yield f"in string {x!r}", "def 0 { o('" + x + "'); o(\"\"\"" + x + '"""); }'
    for m in ("//?:", "//?: ", "//?: a", "//?: a: b", "//?: :", "//?:: x", "//?: is-ssb-script", "//?: is-ssb-script:", "//?: is-ssb-script: ", "//?: is-ssb-script: false", "//?: is-ssb-script: 1", "//?:is-ssb-script:true", "//?: is-ssb-script: true: x", "//?", "//", "/", "\n//?: is-ssb-script: true",
              "//?: a: b\n//?: is-ssb-script: true", "//?: =", "//?: a=b", "//?: a b c"):
        for rest in ("", "\n", "\ndef 0 { o(); }", "\ndef 0 { if (debug) { o(); } }"):
            yield f"meta {m!r} {len(rest)}", m + rest


def stack_items(tier):
    """programs for the injected stack exhaustion"""
    q = tier == "quick"
    for n, b in forms.programs():
        if h32(n) % (60 if q else 8) == 0:
            yield "stack " + n, b
    for n, b in macrofam.programs(tier):
        if h32(n) % (120 if q else 20) == 0 or (n.startswith("imp:") and h32(n) % 4 == 0):
            yield "stack " + n, b
    yield "stack ssbs", ("text", SSBS + " ".join(BASES["ssbs"]))
    yield "stack exps", ("text", " ".join(BASES["exps"]))


def items(tier):
    out = []
    for n, t in grammar_items(tier):
        out.append(("text", n, t))
    for n, t in corruptions(tier):
        out.append(("text", n, t))
    for n, b in stack_items(tier):
        out.append(("stack", n, b))
    for n, b in reject.programs(tier):
        if tier == "quick" and n.startswith(("message", "not bit", "empty end", "two defaults")) and "/" not in n and h32(n) % 2:
            continue
        out.append(("reject", n, b))
    # what is valid must not be rejected: the same statements in a place where they mean something (keeps (b) from being trivially true)
    for n, b in forms.programs():
        if h32(n) % 12 == 0:
            out.append(("valid", n, b))
    for n, b in bigfam.programs(tier):
        out.append(("valid", n, b))
    for n, b in macrofam.programs(tier):
        if n.startswith("big ") or h32(n) % 25 == 0:
            out.append(("valid", n, b))
    return out


def work(P, it):
    kind, name, b = it
    if kind == "text":
        r = P.compile(b, "/v/main.exps", {"/v/a.exps": "macro k() { k1(); }", "/v/s": None} if "imp" in name else None)
        if not r.ok and not documented(r):
            return ("vio", [vio("exception type", fail_site(r), f"[{name}] {r.name} leaves the compiler: {fail_text(r)}", b)])
        return ("ok", "compiled" if r.ok else r.name)
    if kind == "stack":
        I = P.I
        v = []
        pr = None if isinstance(b, tuple) else as_project(b(fam.G(True)))
        n = 0
        for d in range(4, 200):
            def go(d=d):
                I.max_depth, I.rec_exc = d, True
                try:
                    if pr is None:
                        return P.compile(b[1])
                    return pr.compile(P)
                finally:
                    I.max_depth, I.rec_exc = 900, False

            r = go()
            n += 1
            if r.ok:
                break
            if not documented(r):
                v.append(vio("exception type", fail_site(r), f"[{name}] {r.name} leaves the compiler when the stack ends at call depth {d}: {fail_text(r)}", b[1] if pr is None else pr.text()))
                break
        return ("vio", v) if v else ("ok", f"{n} stack depths")
    pr = as_project(b(fam.G(True)))
    r = pr.compile(P)
    if kind == "valid":
        if not r.ok and not documented(r):
            return ("vio", [vio("exception type", fail_site(r), f"[{name}] {r.name} leaves the compiler: {fail_text(r)}", pr.text())])
        return ("ok", "compiled" if r.ok else r.name)
    if r.ok:
        o = name.split(" @ ")[0]
        return ("vio", [vio("rejection", o.rstrip("0123456789 "), f"[{name}] a meaningless program ({o}) is compiled: {Code(r.ops).routines}", pr.text())])
    if not documented(r):
        return ("vio", [vio("exception type", fail_site(r), f"[{name}] {r.name} leaves the compiler: {fail_text(r)}", pr.text())])
    return ("ok", "rejected: " + r.name)


def main(tier):
    t0 = time.time()
    its = items(tier)
    res, skipped, lines = run_parallel(its, work, 300 if tier == "quick" else 780, Pipe)
    n, vios = summarise(res, skipped)
    by = {}
    valid = [0, 0]
    for t in res:
        if t[1] == "ok":
            k = f"{its[t[0]][0]}: {t[2] if 'depths' not in t[2] else 'all stack depths'}"
            by[k] = by.get(k, 0) + 1
            if its[t[0]][0] == "valid":
                valid[t[2] == "compiled"] += 1
    if not vios and valid[0] > valid[1]:
        raise Broken(f"most valid programs are rejected ({valid})")
    n["outcomes"] = by
    return finish("C10", tier, "other", vios, cover(RULE, n, lines, samples=samples(its, res)), t0)
