"""C13: flat structured programs come back as structured text without jumps, every operation printed once."""
from __future__ import annotations

import collections
import re

from .common import *
from sa import decfam as D
from sa import bigfam, flatfam

RULE = ("For every flat structured program of the families the compiled routines are decompiled to ExplorerScript (not to SsbScript); the text contains no jump statement, and its operations (all ops of the recompiled text but Jump, "
        "with their parameters) are exactly those of the source, each as often as there.")


def ops_of(code):
    out = collections.Counter()
    for k, row in enumerate(code.routines):
        for m in row:
            if key(m.name) != "Jump":
                ps = m.params[: JUMPS[key(m.name)]] if key(m.name) in JUMPS else m.params
                out[(k, key(m.name), repr([tuple(key(x) for x in p) for p in ps]))] += 1
    return out


def key(x):
    return rep_text(x) if not isinstance(x, (int, tuple, list, type(None))) else repr(x)


def judge(P, it):
    nm, rows, ends = it
    rs = D.from_source(P, rows(fam.G(True)) if ends is None else flatfam.build(rows, ends))
    if rs is None:
        return [("compile", "compiler", "the program is not compiled", nm)]
    o = D.decompile(P, rs, "1,2,..")
    d = D.describe(o, rs)
    if o.status == "raised":
        return [("raises", D.where(o.res), f"the decompiler raises {D.fail(o.res)}", d)]
    if o.status == "ssb":
        return [("not structured", "SsbScript fallback", "the decompiler gives up and answers with SsbScript", d)]
    t = rep_text(o.text)
    v = []
    js = re.findall(r"\bjump @\S*", t)
    if js:
        v.append(("jump statement", "jump", f"the text contains {js[0]}", d))
    src = collections.Counter()
    dm = any(x.name == "SwitchDungeonMode" for _h, ops in rs.routines for x in ops)
    for k, (_h, ops) in enumerate(rs.routines):
        for x in ops:
            if key(x.name) != "Jump":
                src[(k, key(x.name), repr([tuple(key(y) for y in p) for p in D.dmnorm(x.name, [q.norm for q in x.params], dm)]))] += 1
    if not D.recompile(P, o):
        return v + [("not compiled", D.where(o.res), f"the decompiled text is not compiled: {D.fail(o.res)}", d)]
    got = ops_of(o.code)
    for x in src:
        if got[x] != src[x]:
            v.append(("printed once", "missing" if got[x] < src[x] else "repeated", f"{x[1]}{x[2]} of routine {x[0]} is printed {got[x]} times, the source has it {src[x]} times", d))
            break
    for x in got:
        if x not in src:
            v.append(("printed once", "invented", f"{x[1]}{x[2]} in routine {x[0]} is not an operation of the source", d))
            break
    return v


def work(P, it):
    v = judge(P, it)
    return ("vio", [vio(r, c, f"[{it[0]}] {m}", d) for r, c, m, d in v]) if v else ("ok",)


def main(tier):
    t0 = time.time()
    its = list(flatfam.items(tier)) + [(n, b, None) for n, b in bigfam.flat_programs(tier)]
    res, skipped, lines = run_parallel(its, work, 300 if tier == "quick" else 720, Pipe)
    n, vios = summarise(res, skipped)
    return finish("C13", tier, "other", vios, cover(RULE, n, lines, samples=samples(its, res)), t0)
