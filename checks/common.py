"""Shared pieces of the compile-side checks."""
from __future__ import annotations

import itertools
import time
import zlib

from sa import families as fam
from sa.driver import Broken, Vio, cover, finish, run_parallel, summarise, tier_of
from sa.machine import Bad, Code, site, walk, same, norm_param, JUMPS
from sa.pipe import Pipe, SM, code_of, info_norm
from sa.spec import *
from sa.values import Undecided, mkstr


def h32(s):
    return zlib.crc32(s.encode())


def control_items(tier, thin):
    """(name, ctx, builder, tail, lpos) over all constructs / surroundings; `thin`: keep 1 of n of the secondary ones."""
    out = []
    for ctx in fam.CTXS:
        main = ctx in ("top1", "case", "forever", "while", "then", "macro")
        bodies = fam.BASE + fam.NEST if ctx == "top1" or tier == "thorough" else (fam.BASE if main else fam.KEY + ["i", "s"])
        for nm, b in fam.constructs(ctx, bodies, fam.KEY):
            hasj = any(c in nm.split(":", 1)[-1] for c in "jkut")
            for tail in fam.TAILS:
                for lp in fam.LPOS:
                    if lp != "after" and not (hasj or tail == "j"):
                        if lp != "start" or tail not in ("", "o"):
                            continue
                    if ctx == "lastcase" and nm == "seq:" and not tail:
                        continue  # a switch must not end in an empty case
                    full = f"{ctx}|{nm}|{tail}|{lp}"
                    keep = ctx == "top1" and tail in ("", "o") and lp in ("after", "end")
                    if not keep and thin > 1 and h32(full) % thin:
                        continue
                    out.append((full, ctx, b, tail, lp))
    return out


def build_control(item):
    full, ctx, b, tail, lp = item
    g = fam.G(True)
    return fam.program(ctx, b, tail, lp, g)


def vio(rule, construct, detail, schema):
    return (rule, construct, detail, str(schema))


def fail_text(r):
    tr = " <- ".join(f"{f.split('/explorerscript/')[-1]}:{q}:{l}" for q, f, l in r.trace[:5])
    return f"{r.name}: {r.text} at {tr}"


def fail_site(r):
    for q, f, l in r.trace:
        if "explorerscript" in f:
            return f"{f.split('/explorerscript/')[-1]}:{q}"
    return "?"


def samples(its, res, k=3):
    """Names of a few decided obligations of this run."""
    out = []
    for t in res[:: max(1, len(res) // k)]:
        if t[1] == "ok":
            it = its[t[0]]
            out.append(" ".join(str(x) for x in it if isinstance(x, str)))
    return out[:k]
