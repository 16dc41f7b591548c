"""C09: the decompiler's source map points at the statements it printed."""
from __future__ import annotations

import collections

from .common import *
from .decitems import graph_specs
from sa import dcode
from sa import decfam as D
from sa import bigfam, forms, mapfam, flatfam

RULE = ("For every routine set of the families (ExplorerScript and SsbScript answers, and the SsbScript decompiler itself): every entry of the map has the offset of an input op and a line and column of the text at which a statement of that op's kind begins, "
        "the first text of its line but for a closing brace; every op printed as a statement has an entry; the map of the compiled text has the op that the product walk pairs with it on the same line.")


def items(tier):
    q = tier == "quick"
    out = []
    nums = ["1,2,..", "words", "far"]
    for n, rs in list(mapfam.ml_items()) + list(mapfam.ml_header_items()):
        out.append(("multi-line", n, nums[h32(n) % 3], lambda P, rs=rs: rs))
    for n, rs in list(D.opforms()) + list(D.headforms()):
        if not q or h32(n) % 2:
            out.append(("form", n, nums[h32(n) % 3], lambda P, rs=rs: rs))
    for kinds, ns, mod in graph_specs(tier):
        for g in D.graphs(ns, kinds, mod * (6 if sum(ns) > 3 else 1) if q else mod * 2, 0):
            nm = ";".join(" ".join(o if isinstance(o, str) else f"{o[0]}{o[1][0]}.{o[1][1]}" for o in row) for row in D.split(g[1], g[0]))
            out.append(("graph", nm, nums[h32(nm) % 3], lambda P, g=g: D.graph(*g)))
    for k, mod in ((1, 1), (2, 1), (3, 30 if q else 2)):
        for w in D.seqs(k, None, mod, 0):
            out.append(("sequence", " ".join(w), nums[h32(" ".join(w)) % 3], lambda P, w=w: D.seq(w)))
    for nm, b in forms.programs():
        if q and nm.startswith("switch:") and h32(nm) % 8:
            continue
        out.append(("source form", nm, "1,2,..", lambda P, b=b: D.from_source(P, b(fam.G(True)))))
    for nm, b in bigfam.programs(tier):
        if not q or h32(nm) % 3 == 0:
            out.append(("source form", nm, "1,2,..", lambda P, b=b: D.from_source(P, b(fam.G(True)))))
    for nm, rows, ends in flatfam.items("quick"):
        if h32(nm) % (12 if q else 2) == 0:
            out.append(("flat", nm, "1,2,..", lambda P, rows=rows, ends=ends: D.from_source(P, flatfam.build(rows, ends))))
    for it in control_items(tier, 300 if q else 14):
        if q and it[1] == "top1" and h32(it[0] + "q") % 10:
            continue
        out.append(("control", it[0], "1,2,..", lambda P, it=it: D.from_source(P, build_control(it))))
    return out


def work(P, it):
    famname, name, num, mk = it
    rs = mk(P)
    if rs is None:
        raise Undecided("the generating schema is not compiled")
    wf = dcode.wellformed(rs)
    if wf and (famname != "control" or dcode.plain_reach_ok(rs)):
        return ("ok", "not well-formed")
    o = D.decompile(P, rs, num)
    v = mapfam.judge_map(P, o, rs)
    if not v and o.status == "exps" and (famname in ("multi-line", "form") or h32(name) % 8 == 0):
        o2 = D.decompile(P, rs, num, ssbs=True)
        v = mapfam.judge_map(P, o2, rs)
        o = o2 if v else o
    if v:
        d = D.describe(o, rs) + "\n// map " + str({k: (e.d["line"], e.d["column"]) for k, e in SM(P, o.sm).direct.items()} if o.status != "raised" else "")
        return ("vio", [vio(r, c, f"[{famname} {name}; {num}] {m}", d) for r, c, m in v])
    return ("ok", o.status)


def main(tier):
    t0 = time.time()
    its = items(tier)
    if tier == "thorough":
        its.sort(key=lambda it: (it[0] == "control", h32(it[1]) if it[0] == "control" else 0))
    res, skipped, lines = run_parallel(its, work, 300 if tier == "quick" else 720, Pipe)
    n, vios = summarise(res, skipped)
    kinds = collections.Counter(f"{its[t[0]][0]}: {t[2]}" for t in res if t[1] == "ok")
    return finish("C09", tier, "other", vios, cover(RULE, n, lines, samples=samples(its, res), answers=dict(sorted(kinds.items()))), t0)
