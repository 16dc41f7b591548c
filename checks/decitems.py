"""Items of the decompiler checks: (family, name, builder(P) -> routine set or None)."""
from __future__ import annotations

from .common import *
from sa import dcode
from sa import decfam as D
from sa import bigfam, forms


def graph_specs(tier):
    """(letters, shape, keep 1 of n)"""
    q = [("oRJBCSK", (1,), 1), ("oRJBCSK", (2,), 1), ("oRJBCSK", (3,), 1), ("oRJBC", (4,), 2), ("oRJBSK", (4,), 2), ("oRJBC", (1, 1), 1), ("oRJBC", (2, 1), 1), ("oRJBC", (1, 2), 1), ("oRJBC", (2, 2), 4), ("oRJB", (1, 1, 1), 1), ("oRJB", (3, 1), 10),
         ("oRJBSK", (5,), 200)]
    t = q[:5] + [("oRJBCSK", (4,), 1), ("oRJBSK", (5,), 8), ("oRJBC", (5,), 40), ("oRJBC", (1, 1), 1), ("oRJBC", (2, 1), 1), ("oRJBC", (1, 2), 1), ("oRJBC", (2, 2), 1), ("oRJB", (1, 1, 1), 1), ("oRJB", (3, 1), 1), ("oRJBC", (1, 3), 4),
                 ("oRJB", (3, 2), 300), ("oRJBSK", (6,), 3000)]
    return q if tier == "quick" else t


def items(tier, seed, share):
    """share: 'answers' (C06: all op sequences) or 'behaviour' (C02: control schemata)."""
    out = []
    nums = ["1,2,..", "words", "far"]
    for n, rs in list(D.opforms()) + list(D.headforms()):
        for num in nums[:1] if tier == "quick" else nums:
            out.append(("form", n, num, lambda P, rs=rs: rs))
    for kinds, ns, mod in graph_specs(tier):
        for g in D.graphs(ns, kinds, mod, seed):
            nm = ";".join(" ".join(o if isinstance(o, str) else f"{o[0]}{o[1][0]}.{o[1][1]}" for o in row) for row in D.split(g[1], g[0]))
            out.append(("graph", nm, nums[h32(nm) % 3], lambda P, g=g: D.graph(*g)))
    for k, mod in ((1, 1), (2, 1), (3, 1 if tier == "thorough" or share == "answers" else 8), (4, 60 if tier == "thorough" else 2000)):
        for w in D.seqs(k, None, mod, seed):
            out.append(("sequence", " ".join(w), nums[h32(" ".join(w)) % 3], lambda P, w=w: D.seq(w)))
    for nm, b in forms.programs():
        if tier == "quick" and nm.startswith("switch:") and h32(nm) % 4:
            continue
        out.append(("source form", nm, "1,2,..", lambda P, b=b: D.from_source(P, b(fam.G(True)))))
    if share == "behaviour":
        for nm, b in forms.end_programs():
            out.append(("source form", nm, "1,2,..", lambda P, b=b: D.from_source(P, b(fam.G(True)))))
    for nm, b in bigfam.programs(tier):
        out.append(("source form", nm, "1,2,..", lambda P, b=b: D.from_source(P, b(fam.G(True)))))
    for nm, rs in bigfam.rsets(tier):
        out.append(("form", nm, nums[h32(nm) % 3], lambda P, rs=rs: rs))
    ctl = control_items(tier, 12 if tier == "thorough" else 200 if share == "behaviour" else 400)
    for it in ctl:
        if tier == "quick" and it[1] == "top1" and h32(it[0] + "q") % (6 if share == "behaviour" else 12):
            continue
        out.append(("control", it[0], "1,2,..", lambda P, it=it: D.from_source(P, build_control(it))))
    return out


def run(P, it, judge):
    famname, name, num, mk = it
    rs = mk(P)
    if rs is None:
        raise Undecided("the generating schema is not compiled")
    wf = dcode.wellformed(rs)
    if wf and (famname != "control" or dcode.plain_reach_ok(rs)):
        return ("ok", "not well-formed")
    o = D.decompile(P, rs, num)
    v = judge(P, o, rs)
    if v:
        d = D.describe(o, rs)
        return ("vio", [vio(r, c, f"[{famname} {name}; {num}] {m}", d) for r, c, m in v])
    return ("ok", o.status)
