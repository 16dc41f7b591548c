"""Layouts and spellings of a token list that must not change the compiled ops (C16)."""
from __future__ import annotations

import re

from .spec import Tok, _wordy, rep_text
from .values import mkstr

INT = re.compile(r"-?(0[xX][0-9a-fA-F]+|0[oO][0-7]+|0[bB][01]+|[0-9]+)$")
DEC = re.compile(r"-?[0-9]*\.[0-9]+$")

# what may stand between two tokens; the last group needs the token boundary to be a real one on its own
GAPS = [
    " ", "\t", "\n", "\r\n", "\r", " \t\n\r \n", "/**/", "/* x */", "/*\n*/", "/* ' */", '/*"""*/', "// c\n", "//\n", '// "\r\n', "// é § 漢\r",
    "\\\n", "\\\r\n", "\\\r", "\\\f", "\\ \t\f", "\\\n\n", "/***/", "/* * / */", "//*\n", "/*//*/", "/* def 9 { } */", "// } // {\n", " /* a */ // b\n /* c */ ",
    "//\\\n", "/*\\*/", "/****/", "/*/*/", "/* /* */", "\\\n\\\n",
]
ENDS = ["", "\n", "// c", "/* c */", "/* open", "//", "/*", "\\\n", "\\\f", "\r", " ", "/* é", "// \\", "/***"]
STARTS = ["", "\n\n", "// c\n", "/* c */", "\t", "\\\n", "/**/ ", "//\r", "\r\n"]


def glue_ok(a, b):
    """Do the two tokens stay two tokens without anything between them?"""
    x, y = a[-1], b[0]
    if (_wordy(x) and _wordy(y)) or (x in "<>=&!+-*/|^" and y in "<>=&!+-*/|^") or (x in "\"'" and y in "\"'"):
        return False
    if (x.isdigit() or x == ".") and (y.isdigit() or y == "."):
        return False
    return True


def render_gaps(toks, gap, start="", end="\n"):
    """gap(i, a, b) -> text between token i-1 (text a) and i (text b)"""
    out = [start]
    prev = None
    for i, tk in enumerate(toks):
        r = rep_text(tk.t)
        if prev is not None:
            g = gap(i, prev, r)
            out.append(g if g or glue_ok(prev, r) else " ")
        out.append(tk.t)
        prev = r
    out.append(end)
    return mkstr(out)


def layouts(seed):
    """(name, function token list -> source)"""
    n = len(GAPS)
    yield "tight", lambda t: render_gaps(t, lambda i, a, b: "", "", "")
    yield f"mixed{seed % 7}", lambda t: render_gaps(t, lambda i, a, b: GAPS[(i * 5 + seed) % n], STARTS[seed % len(STARTS)], ENDS[seed % len(ENDS)])
    yield f"mixed'{seed % 11}", lambda t: render_gaps(t, lambda i, a, b: "" if (i * 7 + seed) % 3 else GAPS[(i * 11 + seed // 3) % n], STARTS[(seed + 4) % len(STARTS)], ENDS[(seed + 7) % len(ENDS)])


def every_gap():
    for k, g in enumerate(GAPS):
        yield f"gap {g!r}", lambda t, g=g: render_gaps(t, lambda i, a, b: g)
    for k, g in enumerate(ENDS):
        yield f"end {g!r}", lambda t, g=g: render_gaps(t, lambda i, a, b: " ", "", g)
    for k, g in enumerate(STARTS):
        yield f"start {g!r}", lambda t, g=g: render_gaps(t, lambda i, a, b: " ", g)


# ------------------------------------------------------------------------------------------------- spellings


def plain(t):
    return isinstance(t.t, str)


def sub(t, text):
    return Tok(text, t.keys, t.endkeys)


def signs(toks):
    """@ <-> § in label definitions"""
    out, hit = [], False
    for i, t in enumerate(toks):
        r = rep_text(t.t)
        if r in "@§" and len(r) == 1 and (i == 0 or rep_text(toks[i - 1].t) in (";", "{", "}", ":")):
            out.append(sub(t, "§" if r == "@" else "@"))
            hit = True
        else:
            out.append(t)
    return out if hit else None


def ints(base):
    def fn(toks):
        out, hit = [], False
        for t in toks:
            if plain(t) and INT.match(t.t):
                n = int(t.t, 0) if t.t.strip("-0") else 0
                neg = t.t.startswith("-")
                a = abs(n)
                s = {"x": hex(a), "X": "0X" + hex(a)[2:].upper(), "o": oct(a), "O": "0O" + oct(a)[2:], "b": bin(a), "B": "0B" + bin(a)[2:], "d": str(a), "x0": "0x00" + hex(a)[2:],
                     "o0": "0o0" + oct(a)[2:], "b0": "0b000" + bin(a)[2:], "z": "000" if a == 0 else str(a)}[base]
                s = ("-" if neg else "") + s
                if s != t.t:
                    hit = True
                out.append(sub(t, s))
            else:
                out.append(t)
        return out if hit else None

    return fn


def decs(how):
    def fn(toks):
        out, hit = [], False
        for t in toks:
            if plain(t) and DEC.match(t.t):
                neg = t.t.startswith("-")
                w, f = t.t.lstrip("-").split(".")
                w = w.lstrip("0")
                if how == "none":
                    pass
                elif how == "one":
                    w = "0" + w
                else:
                    w = "000" + w
                s = ("-" if neg else "") + w + "." + f
                if s != t.t:
                    hit = True
                out.append(sub(t, s))
            else:
                out.append(t)
        return out if hit else None

    return fn


def is_str(t):
    r = rep_text(t.t)
    return r[0] in "\"'" and not (r.startswith('"""') or r.startswith("'''")) or r in ('""', "''")


def quotes(q):
    def fn(toks):
        out, hit = [], False
        for i, t in enumerate(toks):
            if is_str(t):
                r = rep_text(t.t)
                single_only = (i > 0 and rep_text(toks[i - 1].t) == "import") or (i > 1 and rep_text(toks[i - 2].t) == "Position")
                if single_only and len(q) == 3:
                    out.append(t)
                    continue
                body = t.t[1:-1]
                rb = rep_text(body)
                if "\\" in rb:
                    out.append(t)
                    continue
                if q in rb:
                    if len(q) == 3:
                        out.append(t)
                        continue
                    body = body.replace(q, "\\" + q)
                elif len(q) == 3 and rb and (rb[-1] == q[0] or rb[0] == q[0]):
                    out.append(t)
                    continue
                s = mkstr([q, body, q])
                if rep_text(s) != r:
                    hit = True
                out.append(sub(t, s))
            else:
                out.append(t)
        return out if hit else None

    return fn


KEYWORDS = {"if", "elseif", "while", "for", "switch", "random", "dungeon_mode", "scn", "value", "sector", "menu", "menu2", "with", "not", "||", "actor", "object", "performer",
            "for_actor", "for_object", "for_performer", "message_SwitchTalk", "message_SwitchMonologue", ";", "=", "==", "<", ">", "(", ",", "{", "}", "[", ":"}


def trailing(toks):
    """a comma after the last argument of operations, macro calls and language strings"""
    out, hit = [], False
    stack = []
    for i, t in enumerate(toks):
        r = rep_text(t.t)
        if r == "(":
            p = rep_text(toks[i - 1].t)
            name = (p[0].isalpha() or p[0] in "_~") and p not in KEYWORDS and not (i > 1 and rep_text(toks[i - 2].t) in ("macro", "actor", "object", "performer"))
            if p == ">" and i > 4:  # inline context
                name = True
            stack.append("(" if name else "x")
        elif r == "{":
            nx = toks[i + 1 : i + 3]
            stack.append("{" if len(nx) == 2 and rep_text(nx[1].t) == "=" and rep_text(toks[i + 3].t)[0] in "\"'" else "x")
        elif r in (")", "}"):
            k = stack.pop() if stack else "x"
            p = rep_text(out[-1].t)
            if k != "x" and p not in ("(", "{"):
                if p == ",":
                    out.pop()
                else:
                    out.append(Tok(","))
                hit = True
        out.append(t)
    return out if hit else None


def targets(style):
    """for actor X / for actor(X) / for_actor(X)"""

    def fn(toks):
        out = []
        hit = False
        i = 0
        n = len(toks)
        tx = [rep_text(t.t) for t in toks]
        while i < n:
            if tx[i] == "def" and i + 4 < n and (tx[i + 2] == "for" or tx[i + 2].startswith("for_")):
                out += [toks[i], toks[i + 1]]
                if tx[i + 2] == "for":
                    kind, j = tx[i + 3], i + 4
                else:
                    kind, j = tx[i + 2][4:], i + 3
                if tx[j] == "(":
                    target, j = toks[j + 1], j + 3
                else:
                    target, j = toks[j], j + 1
                out += [Tok("for"), Tok(kind), target] if style == 0 else [Tok("for"), Tok(kind), Tok("("), target, Tok(")")] if style == 1 else [Tok("for_" + kind), Tok("("), target, Tok(")")]
                i = j
                hit = True
            else:
                out.append(toks[i])
                i += 1
        return out if hit else None

    return fn


SPELLINGS = (
    [("sign", signs), ("trailing comma", trailing)]
    + [(f"int {b}", ints(b)) for b in ("x", "X", "o", "O", "b", "B", "d", "x0", "o0", "b0", "z")]
    + [(f"decimal {h}", decs(h)) for h in ("none", "one", "more")]
    + [(f"quote {q}", quotes(q)) for q in ('"', "'", '"""', "'''")]
    + [(f"target {k}", targets(k)) for k in (0, 1, 2)]
)
