"""C05: a macro call means its body inlined."""
from __future__ import annotations

from .common import *
from sa import macrofam
from sa.project import as_project
from .c01 import judge


RULE = "Routines compiled from macro programs have exactly the paths of the program with every call replaced by the substituted body."


def items(tier):
    return list(macrofam.programs(tier))


def work(P, it):
    name, b = it
    pr = as_project(b(fam.G(True)))
    r = pr.compile(P)
    return judge(name, pr.ref(), pr.main.routines, r, pr.text())


def main(tier):
    t0 = time.time()
    its = items(tier)
    res, skipped, lines = run_parallel(its, work, 300 if tier == "quick" else 780, Pipe)
    n, vios = summarise(res, skipped)
    return finish("C05", tier, "other", vios, cover(RULE, n, lines, samples=samples(its, res)), t0)
