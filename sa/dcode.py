"""Routine sets for the decompiler side: families, well-formedness, reference transition system."""
from __future__ import annotations

import itertools
import zlib

from .machine import JUMPS
from .spec import N, STOP, STOPPERS, Val, vc, vi, vs, vl, vfx, vp
from .ssbs import RSet, SOp

CTX = ("lives", "object", "performer")


class Raw:
    """A parameter given by its normal form."""

    __slots__ = ("norm",)

    def __init__(self, norm):
        self.norm = norm


class Head:
    alias = False

    def __init__(self, kind="GENERIC", linked=None, name=None):
        self.kind, self.linked, self.name = kind, linked, name


def from_code(code, infos, named):
    """The routine set of a compilation result."""
    out = []
    pos = {m.off: (m.r, m.i) for row in code.routines for m in row}
    for r, row in enumerate(code.routines):
        d = infos[r].d
        k = d["type"].d["name"]
        linked = None
        if k in ("ACTOR", "OBJECT", "PERFORMER"):
            ln = d["linked_to_name"]
            linked = ("c", ln) if ln is not None else ("i", d["linked_to"])
        h = Head(k, linked, named[r] if k == "COROUTINE" else None)
        ops = []
        for m in row:
            ps, t = list(m.params), None
            if m.name in JUMPS:
                t = pos[ps.pop()[1]]
            ops.append(SOp(m.name, [Raw(p) for p in ps], t))
        out.append((h, ops))
    rs = RSet(out)
    for r, (h, ops) in enumerate(out):
        if ops and "off" in succs(rs, r, len(ops) - 1):
            ops.append(SOp("Return"))
    return rs


def succs(rs, r, i):
    """Possible next positions of an op ('off' = off the end of the routine)."""
    ops = rs.routines[r][1]
    o = ops[i]
    nxt = (r, i + 1) if i + 1 < len(ops) else "off"
    if o.name == "Jump":
        return [o.target]
    if o.target is not None:
        return [o.target, nxt]
    if o.name in STOPPERS and not (i and ops[i - 1].name in CTX):
        return []
    return [nxt]


def wellformed(rs):
    """-> None or the reason it is not one: every path ends in a flow-ending op, no cycle of Jumps only."""
    for r, (_h, ops) in enumerate(rs.routines):
        for i, o in enumerate(ops):
            if "off" in succs(rs, r, i):
                return "falls off"
            seen = set()
            c = (r, i)
            while rs.routines[c[0]][1][c[1]].name == "Jump":
                if c in seen:
                    return "jump cycle"
                seen.add(c)
                c = rs.routines[c[0]][1][c[1]].target
    return None


def reachable(rs):
    seen = set()
    todo = [(r, 0) for r, (_h, ops) in enumerate(rs.routines) if ops]
    while todo:
        c = todo.pop()
        if c == "off" or c in seen:
            continue
        seen.add(c)
        todo += succs(rs, *c)
    return seen


def plain_reach_ok(rs):
    """Only the ops that can be reached have to end in a flow-ending op."""
    live = reachable(rs)
    for r, i in live:
        if "off" in succs(rs, r, i):
            return "falls off"
        seen = set()
        c = (r, i)
        while rs.routines[c[0]][1][c[1]].name == "Jump":
            if c in seen:
                return "jump cycle"
            seen.add(c)
            c = rs.routines[c[0]][1][c[1]].target
    return None


def lts(rs, nodes=None):
    """-> entry nodes ('alias' for empty routines); `nodes` collects the node of every position."""
    nodes = {} if nodes is None else nodes
    for r, (_h, ops) in enumerate(rs.routines):
        for i, o in enumerate(ops):
            k = "eps" if o.name == "Jump" else "call" if o.name == "Call" else "test" if o.target is not None else "op"
            nodes[(r, i)] = N(k, o.name, [p.norm for p in o.params], key=o.key)
    for (r, i), n in nodes.items():
        o = rs.routines[r][1][i]
        nxt = nodes.get((r, i + 1), STOP)
        if n.kind == "eps":
            n.a = nodes[o.target]
        elif n.kind in ("test", "call"):
            n.a, n.b = nodes[o.target], nxt
        else:
            s = succs(rs, r, i)
            n.a = nxt if s else STOP
    return [nodes[(r, 0)] if ops else "alias" for r, (_h, ops) in enumerate(rs.routines)]
