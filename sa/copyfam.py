"""Several routines of the same build: whatever is counted per routine and used for the whole script (label names, ids, offsets) collides in these.

Also switches whose blocks are shared by cases in every pattern: block p may be entered from several cases that are not neighbours.
"""
from __future__ import annotations

import itertools
import zlib

from . import families as fam
from .spec import *


def merged(progs):
    """One program of the routines of several ones (only `def n` routines and macros)."""
    macros, rts = [], []
    for p in progs:
        for x in p.items:
            if isinstance(x, Macro):
                macros.append(x)
            else:
                rts.append(rt(len(rts), x.body, x.alias))
    return Program(macros + rts)


def copies(build, n):
    return lambda g: merged([build(g) for _ in range(n)])


def patterns(n):
    """Which case owns the block of each case: restricted growth strings"""
    for w in itertools.product(range(n), repeat=n):
        if all(w[i] <= max((w[j] + 1 for j in range(i)), default=0) for i in range(n)):
            yield w


def shared(w, default, tails, after=True):
    """cases 0..n-1; the first case of each class has the block, the others jump into it; default: None, 'own' or the number of a class"""

    def b(g):
        labs, cases = {}, []
        used = {c for c in w if w.count(c) > 1} | ({default} if isinstance(default, int) else set())
        for i, c in enumerate(w):
            if c in labs:
                cases.append((g.case(), [Jump(labs[c])]))
                continue
            labs[c] = g.lab()
            t = tails[c % len(tails)]
            body = ([Label(labs[c])] if c in used else []) + [g.op()] + ([Break()] if t == "b" else [kw("return")] if t == "r" else [])
            cases.append((g.case(), body))
        if default == "own":
            cases.append((None, [g.op(), Break()]))
        elif default is not None:
            cases.append((None, [Jump(labs[default])]))
        return Program([rt(0, [g.op(), Switch(g.hdr(), cases)] + ([g.op()] if after else []) + [kw("end")])])

    return b


def h(s):
    return zlib.crc32(s.encode())


def switches(tier):
    for n in (2, 3, 4) if tier == "thorough" else (2, 3, 4):
        for w in patterns(n):
            k = max(w) + 1
            for d in [None, "own"] + list(range(k)):
                if k == n and not isinstance(d, int):
                    continue
                for tails in ("b", "r", "br", "f", "fb"):
                    nm = f"shared {''.join(map(str, w))} {d} {tails}"
                    if n == 4 and h(nm) % (24 if tier == "quick" else 2) or n == 3 and tier == "quick" and h(nm) % 3:
                        continue
                    yield nm, shared(w, d, tails)


def programs(tier):
    """(name, builder(g) -> Program)"""
    for nm, b in switches(tier):
        yield nm, b
        if tier == "thorough" or h(nm) % 3 == 0 or "01" in nm[:10]:
            yield "2 routines " + nm, copies(b, 2)
    thin = 1500 if tier == "quick" else 150
    for ctx in ("top1", "case", "forever", "while", "then", "else", "macro"):
        for nm, b in fam.constructs(ctx, fam.BASE + fam.NEST, fam.KEY):
            for tail in fam.TAILS:
                for lp in fam.LPOS:
                    full = f"{ctx}|{nm}|{tail}|{lp}"
                    if h(full + "copies") % (thin * 4 if lp in ("other", "start") else thin):
                        continue
                    yield f"2 routines {full}", copies(lambda g, ctx=ctx, b=b, tail=tail, lp=lp: fam.program(ctx, b, tail, lp, g), 2 + h(full) % 2)


def flat(tier):
    """Two or three flat routines (C13): if chains and switches with break-terminated cases."""
    def hd(g):
        g.n += 1
        return [lambda: h_var(g.var()), lambda: h_random(vi(g.n)), lambda: h_scn(g.var(), g.n // 3 % 2)][g.n % 3]()

    o = lambda g, k: [g.op() for _ in range(k)]
    fl = {
        "if": lambda g: [If([(False, [g.cond()], o(g, 1))])],
        "if not or": lambda g: [If([(True, [g.cond(), g.cond()], o(g, 2))], o(g, 1))],
        "elseif": lambda g: [If([(False, [g.cond()], o(g, 1)), (True, [g.cond()], o(g, 2)), (False, [g.cond(), g.cond()], o(g, 1))], o(g, 1))],
        "switch": lambda g: [Switch(hd(g), [(g.case(), o(g, 1) + [Break()]), (g.case(), []), (g.case(), o(g, 2) + [Break()])])],
        "switch default": lambda g: [Switch(hd(g), [(g.case(), o(g, 1) + [Break()]), (None, o(g, 1) + [Break()]), (g.case(), o(g, 2) + [Break()])])],
        "empty": lambda g: [If([(False, [g.cond()], [])], o(g, 1)), Switch(hd(g), [(g.case(), [Break()]), (g.case(), o(g, 1) + [Break()]), (g.case(), [Break()])])],
    }
    for (a, x), (b, y) in itertools.product(fl.items(), repeat=2):
        for n in (2, 3):
            if tier == "quick" and n == 3 and a != b:
                continue
            yield f"{n} routines {a}; {b}", lambda g, x=x, y=y, n=n: Program([rt(k, [g.op()] + (x if k % 2 == 0 else y)(g) + [g.op()] + y(g) + [kw("end")]) for k in range(n)])
