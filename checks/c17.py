"""C17: the highlighting lexer is total and loses no text."""
from __future__ import annotations

import re

from .common import *
from sa import forms, pygm, spell
from sa import strfam as S
from sa.engine import Cls, Native, Obj, PyExc, exc_name, exc_text
from sa.pipe import Result

LEXMOD = "explorerscript.pygments.expslexer"
RULE = ("The rule tables of ExplorerScriptLexer (evaluated abstractly) are read as automata: every state has for every code point a rule that is sure to match whatever follows (no Error token in any text), no cycle of steps that "
        "match nothing, no action that drops matched text, no repetition with exponentially many ways. Where a table does not show it by its form, and for everything around the tables (options, overridden methods, functions as "
        "actions), the matching machine is explored over all short texts of the pieces the tables know, and over accepted sources for Error tokens.")


class Lx:
    def __init__(self, P):
        self.P, self.I = P, P.I
        self.M = pygm.install(P.I)
        self.fail = None

        def go():
            c = P.mod(LEXMOD).ns["ExplorerScriptLexer"]
            if not isinstance(c, Cls):
                raise Undecided("ExplorerScriptLexer is not a class")
            o = P.I.call(c, [], {})
            return c, o

        r = P.one(go)
        if isinstance(r, Result):
            self.fail = r
            return
        self.cls, self.obj = r
        if self.M["RegexLexer"] not in self.cls.mro:
            raise Undecided("ExplorerScriptLexer is not a RegexLexer")
        t = P.one(lambda: pygm.Table.of(P.I, self.cls, self.M))
        if isinstance(t, Result):
            self.fail = t
            return
        self.table = t
        L, R = self.M["Lexer"], self.M["RegexLexer"]
        self.own = sorted(n for n in ("get_tokens", "get_tokens_unprocessed", "_preprocess_lexer_input", "__new__", "__getattribute__", "__getattr__", "__setattr__")
                          if any(n in b.ns for b in self.cls.mro if isinstance(b, Cls) and b not in (L, R)))
        self.reach = sorted(t.reachable())
        self.rules = [r for s in self.reach for r in t.states[s]]
        self.funcs = [r for r in self.rules if not self.M["is_tok"](r.action) and r.action is not None]

    def simple(self):
        return not self.own and not self.funcs

    def tokens(self, text):
        """-> list of (type, text); may raise Loop"""
        if self.simple():
            d = self.obj.d
            text = pygm.prepare(text, d["stripall"], d["stripnl"], d["tabsize"], d["ensurenl"])
            return [(t, v) for _p, t, v in self.table.run(text)]
        I = self.I
        r = self.P.one(lambda: [tuple(I.iterate(x)) for x in I.iterate(I.call_method(self.obj, "get_tokens", [text]))])
        if isinstance(r, Result):
            return r
        return r


def error_type(M, t):
    return t is M["ERR"] or (isinstance(t, Obj) and t.cls is M["Tok"] and t.d["path"][:1] == ("Error",))


def prepare():
    return Lx(Pipe())


def judge_text(X, text):
    """lossless and finite -> None | (rule, construct, message)"""
    try:
        ts = X.tokens(text)
    except pygm.Loop as e:
        return "terminates", f"expslexer.py:ExplorerScriptLexer.tokens[{e.args[0].state!r}]", f"the matching does not end on {text!r}: {e.args[0]} matches nothing again and again"
    if isinstance(ts, Result):
        return "terminates", fail_site(ts), f"the lexer fails on {text!r}: {fail_text(ts)}"
    got = "".join(v for _t, v in ts)
    if got == text or (got == text + "\n" and not text.endswith("\n")):
        return None
    if ("\r" in text or text.startswith("\ufeff")) and got == pygm.prepare(text, False, False, 0, True):
        return "text normalised by Pygments", "pygments.lexer.Lexer", f"the tokens of {text!r} give {got!r}"
    return "text lost", where(X, text), f"the tokens of {text!r} give {got!r}"


def where(X, text):
    bad = [r for r in X.rules if pygm.lossless_action(X.M, r)]
    if X.own:
        return "expslexer.py:ExplorerScriptLexer." + X.own[0]
    if bad:
        tr = []
        try:
            list(X.table.run(pygm.prepare(text, False, False, 0, True), act=lambda a, m: [], trace=tr))
        except (pygm.Loop, Undecided):
            pass
        hit = [r for r in tr if r in bad] or bad
        return f"expslexer.py:ExplorerScriptLexer.tokens[{hit[0].state!r}]"
    return "expslexer.py:ExplorerScriptLexer.__init__"


# ------------------------------------------------------------------------------------------ pieces of texts


def sample(tree, k, rnd):
    """Some text of the pattern."""
    C = pygm.C
    out = ""
    for op, av in tree:
        cs = pygm.charset((op, av), tree.state.flags if hasattr(tree, "state") else 0)
        if op is C.LITERAL:
            out += chr(av)
        elif cs is not None:
            cand = [c for c in "aZ0_9 \n\t.*/'\"\\$@é§(" if re.match(cs, c)]
            out += cand[rnd() % len(cand)] if cand else "?"
        elif op in pygm._REP:
            n = av[0] + (rnd() % 3 if k else 0)
            for _ in range(min(n, av[1] if av[1] is not C.MAXREPEAT else n)):
                out += sample(av[2], k, rnd)
        elif op is C.SUBPATTERN:
            out += sample(av[3], k, rnd)
        elif op is C.BRANCH:
            out += sample(av[1][rnd() % len(av[1])], k, rnd)
        elif op is C.ASSERT and av[0] > 0:
            out += sample(av[1], 0, rnd)
    return out


def pieces(X, n):
    """Texts the rules match, cut ones, and every character the tables name with its neighbours."""
    out = []
    seed = [7]

    def rnd():
        seed[0] = (seed[0] * 1103515245 + 12345) & 0x7FFFFFFF
        return seed[0] >> 8

    for r in X.rules:
        for k in range(n):
            t = sample(r.tree, k, rnd)
            if len(t) < 40:
                out += [t, t[:-1]] if k == 0 and len(t) > 1 else [t]
    for r in X.rules:
        for c in re.findall(r"LITERAL, (\d+)|RANGE, \((\d+), (\d+)\)", _dump(r.tree)):
            for x in c:
                if x:
                    out += [chr(min(0x10FFFF, max(0, int(x) + d))) for d in (-1, 0, 1) if d == 0 or n > 1]
    return sorted(set(out) - {""})


def _dump(tree):
    return repr(tree)


KEYS = ['"', "'", '"""', "'''", "\\", "\n", "//", "/*", "*/", "a", "0", ".5", "$", " ", "@x", "if", "é", "\t", "{", "\\n", "\\\"", "1.5", "§l", "#"]
ODD = ["\r", "\r\n", "\ufeff", "\x00", "\ud800", "\U0001f600", "\x0c", "\x0b", "\x1c", "\u2028", "\x85", "\xa0", "\u0660", "漢", "\u0301", "~", "`", "?", "%", "\x7f"]


def gcontexts():
    """Accepted sources with a place for any filler of a kind. (name, text before, text after, filler allowed?)"""
    nonl = lambda f: not any(c in f for c in "\n\r\f")
    one = lambda q: lambda f: S.single_token(f, q)
    multi = lambda q: lambda f: S.multi_token(f, q)
    yield "line comment", "// ", "\ndef 0 {\n    a();\n}\n", nonl
    yield "line comment inside", "def 0 {\n    a(); //", "\n    b(1);\n}\n", nonl
    yield "last line comment", "def 0 {\n    a();\n}\n//", "", nonl
    yield "block comment", "/*", "*/ def 0 {\n    a(); }", lambda f: "*/" not in f + "*/"[:1]
    yield "block comment inside", "def 0 {\n    a(/*", "*/'x', 2);\n    b();\n}\n", lambda f: "*/" not in f + "*/"[:1]
    for q in "'\"":
        yield f"string {q}", f"def 0 {{\n    a({q}", f"{q}, 1.5);\n    b('x');\n}}\n", one(q)
        yield f"string {q}{q}{q}", f"def 0 {{\n    a({q * 3}", f"{q * 3}, 1);\n    b(\"x\");\n}}\n", multi(q)
        yield f"language string {q}", "def 0 {\n    a({english=" + q, q + ",\n});\n    b();\n}\n", one(q)
        yield f"position mark {q}", "def 0 {\n    a(Position<" + q, q + ", 1, 2.5>);\n    b();\n}\n", one(q)
        yield f"case {q}", "def 0 {\n    switch (message_SwitchMenu(1, 2)) {\n        case menu(" + q, q + "):\n            a();\n    }\n}\n", one(q)
    yield "between", "def 0 {\n    a(1,", "2);\n}\n", lambda f: not f.strip(" \t\n\r\f")
    yield "before", "", "def 0 { a(); }", lambda f: not f.strip(" \t\n\r\f")
    yield "after", "def 0 { a(); }", "", lambda f: not f.strip(" \t\n\r\f")


def sources():
    """Accepted programs with every token of the language."""
    g0 = fam.G(True)
    for nm, b in forms.programs(g0):
        yield nm, lambda b=b: b(fam.G(True))


def w_tables(X, it):
    v = []
    n_unproved = 0
    if X.fail is not None:
        return ("vio", [vio("terminates", fail_site(X.fail) if X.fail.trace else "expslexer.py:ExplorerScriptLexer", f"no lexer can be made: {fail_text(X.fail)}", "")])
    notes = {}
    for r in X.rules:
        w = pygm.hangs(r.tree, r.tree.state.flags)
        if w:
            v.append(vio("terminates", f"expslexer.py:ExplorerScriptLexer.tokens[{r.state!r}]", f"{r}: a repetition reads {w!r} in more than one way and something that can fail follows: the time doubles with every repetition of {w!r}", r.pattern))
        d = pygm.lossless_action(X.M, r)
        if d:
            notes.setdefault("actions", []).append(f"{r}: {d}")
    for r in pygm.empty_cycles(X.table, X.reach):
        notes.setdefault("empty", []).append(str(r))
    for s in X.reach:
        u = pygm.uncovered(X.table, s)
        u = u.replace("\n", "")
        if u:
            notes.setdefault("total", []).append(f"state {s!r}: {len(u)} code points such as {u[:3]!r}")
        for r in X.table.states[s]:
            if error_type(X.M, r.action):
                notes.setdefault("total", []).append(f"{r} gives Error")
    d = X.obj.d
    opts = {k: d[k] for k in ("stripnl", "stripall", "tabsize", "ensurenl")}
    if v:
        return ("vio", v)
    return ("ok", dict(states=len(X.reach), rules=len(X.rules), notes=notes, options=opts, own=X.own, functions=len(X.funcs)))


def w_texts(X, it):
    if X.fail is not None:
        return ("ok", 0)
    _k, name, spec = it
    v, n, seen = [], 0, {}
    for t in expand(X, spec):
        n += 1
        e = judge_text(X, t)
        if e:
            seen[e[0]] = seen.get(e[0], 0) + 1
            if seen[e[0]] <= 3:
                v.append(vio(*e, t))
    return ("vio", v) if v else ("ok", n)


_P = {}


def expand(X, spec):
    kind = spec[0]
    if kind == "seq":  # all sequences of KEYS starting with the given ones
        _s, first, more = spec
        for k in range(more + 1):
            for t in itertools.product(KEYS, repeat=k):
                yield "".join(first) + "".join(t)
    elif kind == "odd":
        for a in ODD + KEYS:
            for b in ODD + KEYS:
                if a in ODD or b in ODD:
                    x = spec[1]
                    yield a + b
                    yield x + a + b
                    yield a + x + b
                    yield a + b + x
    else:
        ps = _P.setdefault(spec[3], None) or _P.__setitem__(spec[3], pieces(X, spec[3])) or _P[spec[3]]
        _s, k, n, q, thin = spec
        ks = [p for j, p in enumerate(ps) if j % n == k]
        for a in ks:
            yield a
            for b in ps + KEYS:
                yield a + b
                for c in KEYS if thin else KEYS + ps:
                    if not thin or h32(a + "|" + b + "|" + c) % thin == 0:
                        yield a + b + c
                        yield c + a + b


def needs_sources(X):
    """Does the form of the tables leave the Error tokens open?"""
    if not X.simple():
        return True
    return any(pygm.uncovered(X.table, s).replace("\n", "") for s in X.reach) or any(error_type(X.M, r.action) for r in X.rules)


def errors_in(X, src):
    try:
        ts = X.tokens(src)
    except pygm.Loop:
        return []
    if isinstance(ts, Result):
        return []
    return [v for t, v in ts if error_type(X.M, t)]


def accepted(X, src):
    try:
        r = X.P.compile(src)
    except Undecided:
        return False
    return r.ok


def w_errors(X, it):
    if X.fail is not None:
        return ("ok", 0)
    _k, name, spec = it
    v, n = [], 0

    def put(src):
        nonlocal n
        n += 1
        bad = errors_in(X, src)
        if bad and accepted(X, src):
            st = ""
            if X.simple():
                tr = []
                list(X.table.run(pygm.prepare(src, False, False, 0, True), trace=tr))
                at = [x for x in tr if isinstance(x, tuple) or error_type(X.M, x.action)]
                st = f"[{(at[0][0] if isinstance(at[0], tuple) else at[0].state)!r}]" if at else ""
            v.append(vio("error token", f"expslexer.py:ExplorerScriptLexer.tokens{st}", f"[{name}] the compiler accepts the source, the lexer gives Error for {bad[0]!r}", src))

    if spec[0] == "programs":
        for j, (nm, b) in enumerate(sources()):
            if j % spec[2] != spec[1]:
                continue
            toks = b().toks()
            put(rep_text(spell.render_gaps(toks, lambda *a: " ")))
            for _n, lay in list(spell.layouts(j)) + (list(spell.every_gap()) if h32(nm) % (8 if spec[3] else 1) == 0 else []):
                put(rep_text(lay(toks)))
        return ("vio", v) if v else ("ok", n)
    ctx = [c for c in gcontexts() if c[0] == spec[1]][0]
    _n, pre, post, okf = ctx
    for f in fillers(X, spec[2], spec[3]):
        if okf(f):
            put(pre + f + post)
            if len(v) > 5:
                break
    return ("vio", v) if v else ("ok", n)


def fillers(X, big, full):
    chars = sorted({chr(k) for k in range(128)} | {c for c in ODD if len(c) == 1} | {c for p in pieces(X, 2) for c in p if True})
    yield ""
    yield from chars
    if not full:
        return
    for a in chars:
        for b in chars if big else ["'", '"', "\\", "\n", "/", "*", "a", " "]:
            yield a + b
            yield b + a
    for k in (3, 4) if big else (3,):
        for t in itertools.product(["'", '"', "\\", "\n", "/", "*", "a", "#", "$", " "], repeat=k):
            yield "".join(t)
    for p in pieces(X, 3):
        yield p
        for c in KEYS:
            yield p + c
            yield c + p


def work(X, it):
    return {"tables": w_tables, "texts": w_texts, "errors": w_errors}[it[0]](X, it)


def items(tier, X):
    q = tier == "quick"
    out = [("tables", "tables", ())]
    slow = X.fail is None and not X.simple()
    for a in KEYS:
        if slow and q:
            out.append(("texts", f"{a!r}+1", ("seq", (a,), 1)))
            continue
        for b in KEYS:
            out.append(("texts", f"{a!r} {b!r}", ("seq", (a, b), (1 if slow else 2) if q else (2 if slow else 3))))
    for x in KEYS if not (slow and q) else KEYS[:4]:
        out.append(("texts", f"odd {x!r}", ("odd", x)))
    n = 32
    for k in range(n):
        out.append(("texts", f"pieces {k}", ("pieces", k, n, 2 if q else 3, (40 if slow else 4) if q else (4 if slow else 1))))
    full = X.fail is None and needs_sources(X)
    for c in gcontexts():
        out.append(("errors", c[0], ("ctx", c[0], not q, full)))
    for k in range(8):
        out.append(("errors", f"programs {k}", ("programs", k, 8, q)))
    return out


def main(tier):
    t0 = time.time()
    X = prepare()
    its = items(tier, X)
    its = its[:1] + sorted(its[1:], key=lambda it: h32(str(it[1])))
    res, skipped, lines = run_parallel(its, work, 240 if tier == "quick" else 700, prepare)
    n, vios = summarise(res, skipped)
    tab = [t[2] for t in res if t[1] == "ok" and its[t[0]][0] == "tables"]
    if tab:
        n.update(states=tab[0]["states"], rules=tab[0]["rules"])
        extra = {"options": tab[0]["options"], "overridden": tab[0]["own"], "not_shown_by_form": tab[0]["notes"]}
    else:
        extra = {}
    n["texts"] = sum(t[2] for t in res if t[1] == "ok" and its[t[0]][0] == "texts")
    n["sources"] = sum(t[2] for t in res if t[1] == "ok" and its[t[0]][0] == "errors")
    c = cover(RULE, n, lines, samples=[str(it[1]) for it in its[:: max(1, len(its) // 4)]])
    c.update(extra)
    return finish("C17", tier, "other", vios, c, t0)
