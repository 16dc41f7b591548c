"""C06: the decompiler always answers; its SsbScript fallback is marked and exact."""
from __future__ import annotations

import collections

from .common import *
from .decitems import items, run
from sa import decfam as D

RULE = ("For every well-formed routine set of the families the decompiler returns a text and a source map on its only path (no exception leaves it); a text that is not structured ExplorerScript starts with the marker line "
        "and is compiled by the ExplorerScript compiler to exactly the input, op for op.")


def work(P, it):
    return run(P, it, D.judge_answer)


def main(tier):
    t0 = time.time()
    its = items(tier, 0, "answers")
    if tier == "thorough":
        its.sort(key=lambda it: (it[0] == "control", h32(it[1]) if it[0] == "control" else 0))
    res, skipped, lines = run_parallel(its, work, 300 if tier == "quick" else 720, Pipe)
    n, vios = summarise(res, skipped)
    kinds = collections.Counter(f"{its[t[0]][0]}: {t[2]}" for t in res if t[1] == "ok")
    return finish("C06", tier, "other", vios, cover(RULE, n, lines, samples=samples(its, res), answers=dict(sorted(kinds.items()))), t0)
