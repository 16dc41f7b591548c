"""SsbScript programs: reference routine sets and their spelling."""
from __future__ import annotations

from .machine import JUMPS
from .spec import *


class SOp:
    """One op of a routine set: name, params (Val), target (index into the global op list or None), routine header elsewhere."""

    __slots__ = ("name", "params", "target", "key")

    def __init__(self, name, params=(), target=None):
        self.name, self.params, self.target = name, list(params), target
        self.key = Node()


class RSet:
    """routines: [(Routine header node, [SOp])]; targets are (routine, index) pairs."""

    def __init__(self, routines):
        self.routines = routines

    def toks(self, sign="@", each=False):
        """each: every jump has a label of its own, so that several labels stand before one op"""
        if each:
            return self._each(sign)
        marks = {}
        for _h, ops in self.routines:
            for o in ops:
                if o.target is not None:
                    marks.setdefault(o.target, f"label_{len(marks)}")
        r = []
        for i, (h, ops) in enumerate(self.routines):
            r += h.mark(h.header()) + T("{")
            if h.alias or not ops:
                r += T("alias", "previous", ";")
            for j, o in enumerate(ops):
                if (i, j) in marks:
                    r += T(sign, marks[(i, j)], ";")
                args = [a.toks() for a in o.params]
                if o.target is not None:
                    args.append(T("@", marks[o.target]))
                r += o.key.mark(T(o.name, "(") + commas(args) + T(")", ";"))
            r += T("}")
        return r


    def _each(self, sign):
        at, mine = {}, {}
        for i, (_h, ops) in enumerate(self.routines):
            for j, o in enumerate(ops):
                if o.target is not None:
                    mine[(i, j)] = f"to_{i}_{j}"
                    at.setdefault(o.target, []).append(mine[(i, j)])
        r = []
        for i, (h, ops) in enumerate(self.routines):
            r += h.mark(h.header()) + T("{")
            if h.alias or not ops:
                r += T("alias", "previous", ";")
            for j, o in enumerate(ops):
                for k, m in enumerate(at.get((i, j), ())):
                    r += T(sign if k % 2 else "§", m, ";")
                args = [a.toks() for a in o.params]
                if o.target is not None:
                    args.append(T("@", mine[(i, j)]))
                r += o.key.mark(T(o.name, "(") + commas(args) + T(")", ";"))
            r += T("}")
        return r


PCOUNT = {k: (v if v else 0) for k, v in JUMPS.items()}


def rsets(tier):
    """(name, builder(g) -> RSet)"""
    from .families import G
    from .forms import operands

    def hdr(i, kind, g):
        if kind == "g":
            return rt(i, [])
        if kind == "c":
            return coro(g.name("N"), [])
        if kind == "ga":
            return rt(i, None, alias=True)
        if kind == "ca":
            return coro(g.name("N"), None, alias=True)
        k, t = kind
        return rt_for(i, {"a": "actor", "o": "object", "p": "performer"}[k], vi(4) if t == "i" else g.c(), [])

    def build(shape):
        """shape: list of (kind, [item]); item: 'o' | ('j', opname, (r, i))"""

        def b(g):
            out = []
            for i, (k, ops) in enumerate(shape):
                row = []
                for o in ops:
                    if o == "o":
                        row.append(SOp(g.name("o"), [vi(1), g.c()]))
                    elif o == "0":
                        row.append(SOp(g.name("o")))
                    elif isinstance(o, str):
                        row.append(SOp(o))
                    else:
                        nm = o[1]
                        row.append(SOp(nm, [vi(x + 1) for x in range(PCOUNT.get(nm, 0))], o[2]))
                out.append((hdr(i, k, g), row))
            return RSet(out)

        return b

    # every jump op, forward / backward / self / other routine
    for nm in JUMPS:
        for tgt in ((0, 0), (0, 1), (0, 2), (0, 3), (1, 0), (1, 1)):
            yield f"{nm}->{tgt}", build([("g", ["o", ("j", nm, tgt), "o", "o"]), ("g", ["o", "Return"])])
    # any opcode may carry a label in SsbScript
    yield "kinds", build([("g", ["o"]), (("a", "i"), ["o"]), (("o", "c"), ["o", "End"]), (("p", "i"), ["o"]), (("a", "c"), []), ("g", ["o"])])
    yield "kinds2", build([(("a", "i"), ["o"]), ("ga", []), (("p", "c"), ["o", "o"]), ("ga", [])])
    yield "coros", build([("c", ["o", "Return"]), ("ca", []), ("c", ["o", ("j", "Jump", (0, 1))]), ("c", [])])
    yield "mixed", build([("g", ["o"]), ("c", ["o", "Return"])])
    for n in range(4):
        yield f"lens{n}", build([("g", ["0"] * n), ("g", ["0"] * (3 - n)), ("g", ["o"])])
    yield "sametarget", build([("g", [("j", "Jump", (0, 2)), ("j", "Call", (0, 2)), "o", ("j", "BranchDebug", (0, 2))]), ("g", [("j", "Jump", (0, 2))])])
    yield "unreachable", build([("g", ["Return", "o", ("j", "Jump", (0, 0)), "o", "Hold", ("j", "Jump", (1, 0))]), ("g", ["End", "o"])])
    yield "first of next", build([("g", ["o", ("j", "Jump", (1, 0))]), ("g", ["o"]), ("g", [("j", "Jump", (1, 0)), ("j", "Jump", (0, 0))])])
    yield "jump only", build([("g", [("j", "Jump", (1, 0))]), ("g", [("j", "Jump", (2, 0))]), ("g", ["Return"])])
    yield "jump to jump", build([("g", [("j", "Jump", (0, 1)), ("j", "Jump", (0, 2)), ("j", "Jump", (0, 0))])])
    yield "selfloop", build([("g", ["o", ("j", "Jump", (0, 1))]), ("g", [("j", "Jump", (1, 0))])])

    def ops(g):
        return operands(g)

    for i in range(len(ops(G()))):
        yield f"arg{i}", lambda g, i=i: RSet([(rt(0, []), [SOp(g.name("o"), [operands(g)[i]]), SOp(g.name("o"), [vi(1), operands(g)[i], g.c()]), SOp("BranchDebug", [operands(g)[i]], (0, 1))])])
    yield "args", lambda g: RSet([(rt(0, []), [SOp(g.name("o"), operands(g))])])
    # opcode names that mean something elsewhere, and names close to them
    from .spec import STOPPERS

    names = sorted(set(JUMPS) | STOPPERS | {"Switch", "SwitchScenario", "SwitchSector", "SwitchRandom", "SwitchDungeonMode", "SwitchScenarioLevel", "message_SwitchMenu", "message_SwitchMenu2", "message_SwitchTalk",
                    "message_SwitchMonologue", "CaseText", "DefaultText", "lives", "object", "performer", "ProcessSpecial", "flag_CalcBit", "flag_CalcValue", "flag_CalcVariable", "flag_Clear", "flag_Initial", "flag_Set",
                    "flag_ResetDungeonResult", "flag_SetScenario", "flag_SetPerformance", "flag_SetDungeonMode", "actor", "end", "hold", "jump", "call", "if", "switch", "case", "default", "macro", "Null", "label_0", "debug_Print"})
    for nm in names:
        if nm not in JUMPS:
            yield f"name {nm}", build([("g", ["o", nm, "o"]), ("g", [nm, ("j", "Jump", (0, 1)), nm])])
    for nm in sorted(JUMPS):
        for v in (nm + "2", nm + "Common", "x" + nm, nm.lower(), nm.upper()):
            if v not in JUMPS:
                yield f"name {v}", build([("g", ["o", v, "o"]), ("g", [("j", "Jump", (0, 1)), v])])
    for nn in (11, 13, 24):
        yield f"labels {nn}", build([("g", ["o"] * nn), ("g", [("j", "BranchDebug", (0, i)) for i in range(nn)] + [("j", "Jump", (1, i)) for i in range(nn)])])
        yield f"labels back {nn}", build([("g", [("j", "Call", (0, nn - 1 - i)) for i in range(nn)] + ["o"]), ("g", ["o", ("j", "Jump", (1, 0))])])
    for k1 in ("g", "c", ("a", "i"), ("o", "c"), ("p", "c")):
        for k2 in ("ga", "g", "c", ("a", "c"), ("p", "i")):
            yield f"empty {k1}{k2}", build([(k1, ["o", ("j", "Jump", (3, 0))]), (k2, []), ("ga", []), (k1, ["o", ("j", "Branch", (0, 0))]), (k2, ["Return", ("j", "Jump", (3, 1))])])
    yield "empty first", build([("g", []), ("g", ["o", ("j", "Jump", (1, 0))]), ("g", [("j", "Jump", (1, 0))])])
    yield "all empty", build([("g", []), ("c", []), (("a", "i"), [])])
    yield "no routines", build([])
    # all small jump graphs
    import itertools

    for k in ((2, 1), (2, 2)) if tier == "quick" else ((2, 1), (2, 2), (3, 1), (3, 2)):
        pts = [(r, i) for r, n in enumerate(k) for i in range(n)]
        for combo in itertools.product([None] + pts, repeat=len(pts)):
            it = iter(combo)
            shape = []
            for r, n in enumerate(k):
                shape.append(("g", [("o" if t is None else ("j", "BranchBit", t)) for t in itertools.islice(it, n)]))
            yield f"graph{k}{combo}", build(shape)
