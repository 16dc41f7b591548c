"""Flat structured programs (C13): plain statements, if chains and break-terminated switches, one terminator per routine.

A shape is plain data: ("p", letters) | ("i", ((neg, nconds, letters), ...), else letters or None) | ("s", header, ((cases, letters), ...))
with cases a string over c (case) and d (default)."""
from __future__ import annotations

import itertools
import zlib

from . import forms
from .families import G
from .spec import *

PLAIN = "oawmnzvxyu"


def plain(g, ch):
    if ch == "o":
        return g.op(g.c(), vi(3))
    if ch == "a":
        return assign(g.var(), "+=", vi(2))
    if ch == "w":
        return with_block("actor", g.c(), g.op())
    if ch == "y":
        return with_block("performer", vi(4), assign(g.var(), "=", vi(1)))
    if ch == "x":
        return op(g.name("o"), vi(1), ctx=("object", g.c()))
    if ch == "m":
        return message_switch("message_SwitchTalk", g.var(), [(vi(0), vs("a")), (g.c(), vs("b"))], vs("d"))
    if ch == "n":
        return message_switch("message_SwitchMonologue", g.var(), [(vi(0), vl([("english", "x"), ("french", "y")]))])
    if ch == "z":
        return message_switch("message_SwitchTalk", g.c(), [], None)
    if ch == "v":
        return assign_bit(g.var(), 4, vi(1))
    if ch == "u":
        return set_scn(g.var(), 7, 9)
    raise AssertionError(ch)


HDRS = {"v": lambda g: h_var(g.var()), "s": lambda g: h_scn(g.var(), 0), "S": lambda g: h_scn(g.var(), 1), "r": lambda g: h_random(vi(9)), "d": lambda g: h_dmode(g.c()), "q": lambda g: h_sector(), "o": lambda g: h_oper("message_Menu", vi(2)), "p": lambda g: h_oper("ProcessSpecial", g.c(), vi(1), vi(2)),
        "e": lambda g: h_oper("main_EnterAdventure", vi(1), vi(0)), "m": lambda g: h_oper("message_SwitchMenu", vi(2), vi(1)), "n": lambda g: h_oper("message_SwitchMenu2", vi(2))}
CASES = {"m": lambda g: k_menu(vs("text")), "n": lambda g: k_menu2(vi(4)), "d": lambda g: k_val(g.c())}


def stmt(g, sh, k=0):
    if sh[0] == "p":
        return [plain(g, c) for c in sh[1]]
    if sh[0] == "i":
        return [If([(bool(neg), [g.cond() for _ in range(n)], [plain(g, c) for c in body]) for neg, n, body in sh[1]], None if sh[2] is None else [plain(g, c) for c in sh[2]])]
    cases = []
    for heads, body in sh[2]:
        for j, c in enumerate(heads):
            h = None if c == "d" else CASES.get(sh[1], lambda g: g.case())(g)
            cases.append((h, [] if j < len(heads) - 1 else [plain(g, c) for c in body] + [Break()]))
    return [Switch(HDRS[sh[1]](g), cases)]


def build(rows, ends):
    g = G(True)
    out = []
    for k, (row, e) in enumerate(zip(rows, ends)):
        body = []
        for sh in row:
            body += stmt(g, sh)
        out.append(rt(k, body + [kw(e)]))
    return Program(out)


def name(rows, ends):
    def sh(s):
        if s[0] == "p":
            return s[1]
        if s[0] == "i":
            return "if" + "/".join(("!" if n else "") + str(k) + b for n, k, b in s[1]) + ("" if s[2] is None else "/else " + s[2])
        return "sw" + s[1] + "[" + "|".join(h + ":" + b for h, b in s[2]) + "]"

    return " ; ".join(",".join(sh(s) for s in row) + "." + e[0] for row, e in zip(rows, ends))


def ifs(thin):
    arm1 = [(n, k, b) for n in (0, 1) for k in (1, 2) for b in ("", "o", "oo", "a", "w", "m")]
    key = [(n, k, b) for n in (0, 1) for k in (1, 2) for b in ("", "o")]
    els = [None, "", "o", "oa", "m"]
    for a in arm1 + [(0, 3, "o"), (1, 3, "o"), (0, 1, "n"), (0, 1, "zo"), (0, 1, "xy"), (1, 1, "ouv")]:
        for e in els:
            yield ("i", (a,), e)
    for a in itertools.product(key, repeat=2):
        for e in els[:3]:
            yield ("i", a, e)
    for k in (3, 4, 5):
        for a in itertools.product([(0, 1, ""), (0, 1, "o"), (1, 1, "o"), (0, 2, "o"), (1, 2, ""), (1, 1, "")], repeat=k):
            for e in els[:3]:
                s = ("i", a, e)
                if zlib.crc32(repr(s).encode()) % (thin * 6 ** (k - 3)) == 0:
                    yield s


def switches(thin):
    bodies = ["", "o", "oa"]
    one = [(h, b) for h in ("c", "cc", "ccc", "d", "cd", "dc", "cdc") for b in bodies + ["m", "w"]]
    for h in HDRS:
        for g in one:
            yield ("s", h, (g,))
        yield ("s", h, (("c", "o"), ("c", "o"), ("d", "o")))
        yield ("s", h, ())
    two = [(h, b) for h in ("c", "cc", "d", "cd", "dc") for b in ("", "o", "m")]
    for g in itertools.product(two, repeat=2):
        if sum(h.count("d") for h, _b in g) < 2:
            yield ("s", "v", g)
    three = [(h, b) for h in ("c", "cc", "d") for b in ("", "o")]
    for k in (3, 4, 5):
        for g in itertools.product(three, repeat=k):
            if sum(h.count("d") for h, _b in g) < 2:
                s = ("s", "vro"[k - 3], g)
                if zlib.crc32(repr(s).encode()) % (thin * 5 ** (k - 3)) == 0:
                    yield s


KEY = [("i", ((0, 1, "o"),), None), ("i", ((0, 1, ""),), None), ("i", ((1, 1, "o"),), None), ("i", ((0, 2, "o"),), None), ("i", ((1, 2, "o"),), "o"), ("i", ((0, 1, "o"),), "o"), ("i", ((0, 1, ""),), "o"), ("i", ((0, 1, "o"),), ""),
       ("i", ((0, 1, "o"), (0, 1, "o")), None), ("i", ((0, 1, "o"), (1, 2, ""), (0, 1, "o")), "o"), ("i", ((0, 1, "m"),), None),
       ("s", "v", (("c", "o"),)), ("s", "v", (("c", ""),)), ("s", "v", (("c", "o"), ("c", "o"))), ("s", "s", (("cc", "o"), ("d", "o"))), ("s", "o", (("d", "o"), ("c", "o"))), ("s", "r", (("d", ""),)), ("s", "v", (("c", "o"), ("c", ""), ("cd", "o"))),
       ("s", "d", (("c", "m"), ("d", ""))), ("s", "q", (("dc", "o"),))]
ENDS = ["return", "end", "hold"]


def items(tier):
    """(name, rows, ends)"""
    thin = 2 if tier == "thorough" else 12
    out = {}

    def add(rows, ends):
        out.setdefault(name(rows, ends), (rows, ends))

    P = lambda s: ("p", s)
    for c in PLAIN:
        for e in ENDS:
            add(((P(c),),), (e,))
    for a in itertools.product(PLAIN, repeat=2):
        add(((P("".join(a)),),), ("return",))
    for s in itertools.chain(ifs(thin), switches(thin)):
        for b, a in (("", ""), ("o", "o"), ("", "o"), ("o", ""), ("m", "w")):
            row = ((P(b),) if b else ()) + (s,) + ((P(a),) if a else ())
            if tier == "quick" and (b or a) and zlib.crc32(repr(row).encode()) % 3:
                continue
            e = ENDS[zlib.crc32(repr(row).encode()) % 3]
            add((row,), (e,))
    for s, t in itertools.product(KEY, repeat=2):
        for m in ("", "o", "m"):
            for a in ("", "o"):
                row = (s,) + ((P(m),) if m else ()) + (t,) + ((P(a),) if a else ())
                if tier == "quick" and m and a and zlib.crc32(repr(row).encode()) % 3:
                    continue
                add((row,), (ENDS[zlib.crc32(repr(row).encode()) % 3],))
        add(((s,), (t,)), ("end", "return"))
        add(((P("o"), s, P("o")), (t, P("o")), (P("o"),)), ("return", "hold", "end"))
    for k in (3, 4) + ((5,) if tier == "thorough" else ()):
        for ss in itertools.product(KEY, repeat=k):
            h = zlib.crc32(repr(ss).encode())
            if h % ({3: 1, 4: 80, 5: 1600}[k] * (1 if tier == "thorough" else {3: 10, 4: 40}[k])) == 0:
                row = []
                for j, s in enumerate(ss):
                    row += [s] + ([P("oam"[h >> 8 & 1 if (h >> 10) % 3 else 2])] if h >> (j + 4) & 1 else [])
                add((tuple(row),), (ENDS[h >> 3 & 1],))
    return [(n, r, e) for n, (r, e) in out.items()]
