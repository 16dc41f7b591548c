"""Parameter values, the literals that denote them and what a literal denotes (C04).

The reading rules below are written from docs/language_spec.rst ("(Constant) Strings", "Integer", "Fixed Point Value", "Position
Marks") and from the lexer rules of SsbCommon.g4, independently of the reader and the printer of the program.
"""
from __future__ import annotations

import itertools
import re

from .values import Atom, mkstr

A, B = "\ue000", "\ue001"  # stand for any texts (see values: "txt")
REP = {A: "Ab", B: "Cd"}
_atoms = {A: Atom("textA", "txt", True, REP[A]), B: Atom("textB", "txt", True, REP[B])}


def abstract(s):
    return mkstr([_atoms.get(c, c) for c in s])


def concrete(s):
    for a, r in REP.items():
        s = s.replace(a, r)
    return s


# ---------------------------------------------------------------------------------------------- what a literal denotes


def single_token(body, q):
    """Is q body q one single-line literal?"""
    return re.fullmatch(r"(?:\\[^\r\n\f]|[^\\\r\n\f" + q + r"])*", body) is not None


def multi_token(body, q):
    """Is qqq body qqq one multi-line literal (it ends at the first delimiter)?"""
    return (body + q * 3).find(q * 3) == len(body)


def read_single(body):
    return body.replace('\\"', '"').replace("\\'", "'").replace("\\n", "\n")


BREAKS = "\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


def read_multi(body):
    """The documented dedent rules, for texts whose only line ends are newlines."""
    lines = body.split("\n")
    first, rest = lines[0], lines[1:]
    last_gone = False
    if rest and rest[-1].strip(" ") == "":
        rest.pop()
        last_gone = True
    d = min((len(x) - len(x.lstrip(" ")) for x in rest), default=0)
    rest = [x[d:] for x in rest]
    del last_gone
    if first == "" and rest:
        return "\n".join(rest)
    return "\n".join([first] + rest)


def literals(s):
    """Literals that may denote the content. -> (kind, quote, body)"""
    opts = [{"'": ["'", "\\'"], '"': ['"', '\\"'], "\n": ["\\n", "\n"]}.get(c, [c]) for c in s]
    for q in "'\"":
        n = 0
        for t in itertools.product(*opts):
            n += 1
            if n > 4096:
                break
            yield "single", q, "".join(t)
    ls = s.split("\n")
    for q in "'\"":
        for b in (s, s + "\n ", "\n" + "\n".join(" " + x for x in ls) + "\n ", "\n" + "\n".join(" " + x for x in ls), ls[0] + "".join("\n " + x for x in ls[1:]) + "\n "):
            yield "multi", q, b


def denotes(kind, q, body):
    if kind == "single":
        return read_single(body) if single_token(body, q) else None
    if any(c in body for c in BREAKS):
        return None
    return read_multi(body) if multi_token(body, q) else None


def literal_for(s):
    """Some literal that denotes the content, or None."""
    for k, q, b in literals(s):
        if denotes(k, q, b) == s:
            return q + b + q if k == "single" else q * 3 + b + q * 3
    return None


def single_for(s):
    """A single-line literal for the content (position mark names), or None"""
    for k, q, b in literals(s):
        if k == "single" and denotes(k, q, b) == s:
            return q + b + q
    return None


# ---------------------------------------------------------------------------------------------- contents

SPECIAL = ["'", '"', "\\", "\n", " ", "n"]
RARE = ["\t", "\r", "\x0b", "\x0c", "\x1d", "\x85", "\u2028", "é", "{", "//", "/*", "$", "'''", '"""', "\\n", "\\'", '\\"', "漢"]


def contents(n, alpha=None):
    for k in range(n + 1):
        for t in itertools.product(alpha or [A] + SPECIAL, repeat=k):
            yield "".join(t)


def big_contents():
    """Longer ones around the decisions of a printer: delimiters, blank lines, blanks at the ends, backslash runs."""
    lines = [A, " " + A, "    " + A, "", " ", "     ", A + " ", "'", '"', "'''", '"""', A + "\\", "\\n", "'" + A, '"' + A, A + "'", A + '"', "\t" + A]
    for a in lines:
        for b in lines:
            yield a + "\n" + b
    key = [A, "  " + A, "", "  ", "'''", '"""', A + "\\n", A + "'", A + "\\"]
    for t in itertools.product(key, repeat=3):
        yield "\n".join(t)
    for t in itertools.product([A, " " + A, "", " "], repeat=4):
        yield "\n".join(t)
    for k in range(1, 6):
        for tail in ("", A, "'", '"', "\n", "n", " "):
            for head in ("", A, "\n"):
                yield head + "\\" * k + tail
    for a, b in itertools.product(RARE, RARE + [A, "\n", " ", "'", '"', "\\"]):
        yield a + b
        yield b + a
        yield A + a + b
    for a in RARE:
        for b in ("\n", "\n ", " \n"):
            yield a + b + A
            yield A + b + a
            yield A + b + a + b
    for q in ("'", '"'):
        for k in range(1, 8):
            yield q * k
            yield A + q * k
            yield q * k + A
            yield A + "\n" + q * k
            yield q * k + "\n" + A
            yield "\\n" + q * k
            yield q * k + "\\n"
            yield q * k + "\\n" + ("'" if q == '"' else '"') * k
            yield q * k + "\n" + ("'" if q == '"' else '"') * k


# a few of every kind, for the product with the places and depths
CURATED = [
    "", A, "it's", 'say "x"', A + "\n" + B, A + "\n", "\n" + A, "\n", "\n\n", A + "\n\n" + B, " " + A + "\n  " + B, A + "\n  " + B, "  " + A + "\n" + B, " ", "  \n" + A, A + "\n  ", A + "\\n" + B, A + "\\", "\\'",
    "\\n\n" + A, "'''\n" + A, '"""\n' + A, "'''\"\"\"", "'''\"\"\"\n" + A, A + "'\n'" + B, "\t" + A + "\n\t" + B, " \n ", "é漢\n§", "// " + A, "/*\n*/", "{" + A + "}", "\\\\", "\\\n" + A, A + "\x0b", A + "\x85\n" + B,
]


# ---------------------------------------------------------------------------------------------- number spellings


def numerals(n):
    """Integer literals of the grammar up to n digits and their values."""
    out = []
    for sign in ("", "-"):
        m = -1 if sign else 1
        for k in range(1, n + 1):
            for t in itertools.product("019", repeat=k):
                s = "".join(t)
                if s[0] == "0" and s.strip("0"):
                    continue
                out.append((sign + s, m * int(s)))
            for p, base, digs in (("0x", 16, "0aF9"), ("0X", 16, "1fA"), ("0o", 8, "017"), ("0O", 8, "07"), ("0b", 2, "01"), ("0B", 2, "01")):
                for t in itertools.product(digs, repeat=min(k, 3)):
                    s = "".join(t)
                    out.append((sign + p + s, m * int(s, base)))
    for v in (32767, 32768, 65535, 2**31, 2**63, 10**30, 123456789):
        out += [(str(v), v), (str(-v), -v), (hex(v), v), ("-" + hex(v), -v), (oct(v), v), (bin(v), v), (hex(v).upper().replace("X", "x"), v)]
    return sorted(set(out))


def decimal_value(t):
    """(negative, integer digits without leading zeros, fraction without trailing zeros)"""
    neg = t.startswith("-")
    w, _p, f = t.lstrip("-").partition(".")
    return neg, w.lstrip("0") or "0", f.rstrip("0")


def decimals():
    ws = ["", "0", "00", "1", "9", "10", "100", "01", "001", "010", "0100", "64", "1000", "0000"]
    fs = ["0", "5", "50", "05", "00", "000", "125", "99609375", "001", "100", "3", "90", "09"]
    return [s + w + "." + f for s in ("", "-") for w in ws for f in fs]


def coordinate(t):
    """(tile, half) of a spelled coordinate, or None if it denotes no place; 'skip' where the documentation says nothing"""
    if "." not in t:
        return int(t, 0) if not t.lstrip("-").isdigit() else int(t), 0
    neg, w, f = decimal_value(t)
    if f not in ("", "5"):
        return None
    if neg and int(w) == 0 and f:
        return "skip"
    return (-int(w) if neg else int(w)), 2 if f else 0
