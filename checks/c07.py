"""C07: SsbScript is a lossless spelling of SSB ops."""
from __future__ import annotations

from .common import *
from sa import bigfam, ssbs
from sa.engine import Obj
from sa.model import Model, exact, schemes, ssbs_compile
from sa.pipe import Result

RULE = ("For every routine set schema (all jump ops x places of the target, all kinds of routines, targets and parameters, all small jump graphs, unreachable ops) in every offset numbering (counted, with gaps, at an unknown base): "
        "the text of the SsbScript decompiler is accepted by the SsbScript compiler, and the compiled tables equal the input op for op; jumps denote the corresponding op.")


def work(P, it):
    name, b, num = it
    rs = b(fam.G(True))
    m = {}

    def go():
        md = m["m"] = Model(P, rs, schemes()[num])
        before = md.describe()
        d = md.ssbs_decompiler(P)
        text, sm = P.I.iterate(P.I.call_method(d, "convert", []))
        m["t"] = text
        c = ssbs_compile(P, text)
        return c

    c = P.one(go)
    desc = m["m"].describe() if "m" in m else name
    if "t" in m:
        desc += "\n// text\n" + rep_text(m["t"])
    if isinstance(c, Result):
        side = "compiled" if "t" in m else "decompiled"
        return ("vio", [vio("not " + side, fail_site(c), f"[{name}; {num}] the routine set is not {side}: {fail_text(c)}", desc)])
    e = exact(m["m"], c.d["routine_ops"], c.d["routine_infos"], c.d["named_coroutines"])
    if e:
        return ("vio", [vio(e[0], "ssb_script", f"[{name}; {num}] {e[1]}", desc)])
    return ("ok", 1)


def items(tier):
    out = []
    for n, b in ssbs.rsets(tier):
        for num in schemes():
            if tier == "quick" and n.startswith("graph") and h32(n + num) % 4:
                continue
            out.append((n, b, num))
    for n, rs in bigfam.rsets(tier):
        for num in schemes():
            out.append((n, lambda g, rs=rs: rs, num))
    return out


def main(tier):
    t0 = time.time()
    its = items(tier)
    res, skipped, lines = run_parallel(its, work, 300 if tier == "quick" else 780, Pipe)
    n, vios = summarise(res, skipped)
    return finish("C07", tier, "other", vios, cover(RULE, n, lines, samples=samples(its, res)), t0)
