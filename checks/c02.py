"""C02: decompiled source denotes the input routines; recompiling preserves behaviour."""
from __future__ import annotations

import collections

from .common import *
from .decitems import items, run
from sa import decfam as D

RULE = ("For every well-formed routine set of the families, the decompiler's text is compiled, and every compiled routine, walked as a transition system from its entry, has exactly the operation/test paths of the input routine "
        "with equal parameters, kinds, targets and coroutine names.")


def work(P, it):
    return run(P, it, D.judge_behaviour)


def main(tier):
    t0 = time.time()
    its = items(tier, 0, "behaviour")
    if tier == "thorough":
        its.sort(key=lambda it: (it[0] == "control", h32(it[1]) if it[0] == "control" else 0))
    res, skipped, lines = run_parallel(its, work, 300 if tier == "quick" else 720, Pipe)
    n, vios = summarise(res, skipped)
    kinds = collections.Counter(f"{its[t[0]][0]}: {t[2]}" for t in res if t[1] == "ok")
    return finish("C02", tier, "other", vios, cover(RULE, n, lines, samples=samples(its, res), answers=dict(sorted(kinds.items()))), t0)
