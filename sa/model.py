"""Routine sets as a binary reader delivers them: built inside the analysed program from an ssbs.RSet."""
from __future__ import annotations

from .engine import Obj
from .machine import JUMPS, norm_param, same
from .pipe import DATA
from .values import AStr, SInt

SSBD = "explorerscript.ssb_script.ssb_converting.ssb_decompiler"
SSBC = "explorerscript.ssb_script.ssb_converting.ssb_compiler"
DEC = "explorerscript.ssb_converting.ssb_decompiler"


def schemes():
    """offset numberings of a routine set: name -> function(global index) -> offset. All increase through the file."""
    gaps = [0, 1, 3, 4, 5, 8, 9, 12, 13, 17, 18, 19, 23, 30, 31, 33]
    tab = lambda k: gaps[k % 16] + 34 * (k // 16)
    return {
        "1,2,..": lambda k: k + 1,
        "0,1,..": lambda k: k,
        "words": lambda k: 6 + tab(k),
        "far": lambda k: 1000 + 2 * k,
        "unknown": lambda k: SInt.var("base") + tab(k),
    }


class Model:
    """infos / ops / coroutines of the analysed program plus the plain description they were built from."""

    def __init__(self, P, rset, num, jump_at=None, fx_str=True):
        self.I = I = P.I
        ns = P.mod(DATA).ns
        self.ns = ns
        self.rset = rset
        offs, n = {}, 0
        for r, (_h, ops) in enumerate(rset.routines):
            for i, _o in enumerate(ops):
                offs[(r, i)] = num(n)
                n += 1
        self.offs = offs
        T = ns["SsbRoutineType"]
        self.infos, self.ops, self.coros = [], [], []
        self.kinds = []
        for r, (h, ops) in enumerate(rset.routines):
            linked, lname = -1, None
            if h.kind in ("ACTOR", "OBJECT", "PERFORMER"):
                if h.linked[0] == "i":
                    linked = h.linked[1]
                else:
                    lname = h.linked[1]
            self.kinds.append((h.kind, linked, lname, h.name))
            self.infos.append(I.call(ns["SsbRoutineInfo"], [I.getattr(T, h.kind), linked, lname], {}))
            if h.kind == "COROUTINE":
                self.coros.append(I.call(ns["SsbCoroutine"], [r, h.name], {}))
            row = []
            for i, o in enumerate(ops):
                ps = [self.param(p) for p in o.params]
                if o.target is not None:
                    ps.append(offs[o.target])
                row.append(I.call(ns["SsbOperation"], [offs[(r, i)], I.call(ns["SsbOpCode"], [-1, o.name], {}), ps], {}))
            self.ops.append(row)
        if len(offs) % 3:  # the coroutines say which routine they are: any order
            self.coros.reverse()

    def param(self, v):
        I, ns = self.I, self.ns
        n = v.norm if hasattr(v, "norm") else v
        k = n[0]
        if k == "i":
            return n[1]
        if k == "c":
            return I.call(ns["SsbOpParamConstant"], [n[1]], {})
        if k == "s":
            return I.call(ns["SsbOpParamConstString"], [n[1]], {})
        if k == "l":
            return I.call(ns["SsbOpParamLanguageString"], [dict(n[1])], {})
        if k == "p":
            return I.call(ns["SsbOpParamPositionMarker"], [n[1], n[4], n[5], n[2], n[3]], {})
        if k == "fx":
            o = I.call(ns["SsbOpParamFixedPoint"], [0, "0"], {})
            I.setattr(o, "value", n[1])
            return o
        if k == "fl":
            return I.call(I.getattr(ns["SsbOpParamFixedPoint"], "from_float"), [n[1]], {})
        raise AssertionError(k)

    def describe(self):
        out = []
        for r, (h, ops) in enumerate(self.rset.routines):
            out.append(f"routine {r} {self.kinds[r]}")
            for i, o in enumerate(ops):
                t = f" -> {self.offs[o.target]}" if o.target is not None else ""
                out.append(f"  {self.offs[(r, i)]}: {o.name} {[p.norm for p in o.params]}{t}")
        return "\n".join(out)

    def ssbs_decompiler(self, P):
        return self.I.call(P.mod(SSBD).ns["SsbScriptSsbDecompiler"], [self.infos, self.ops, self.coros], {})

    def exps_decompiler(self, P, perf="$PERF", dm=("DM_CLOSED", "DM_OPEN", "DM_REQUEST", "DM_OPEN_REQUEST")):
        d = self.I.call(self.ns["DungeonModeConstants"], list(dm), {})
        return self.I.call(P.mod(DEC).ns["ExplorerScriptSsbDecompiler"], [self.infos, self.ops, self.coros, perf, d], {})


def ssbs_compile(P, text):
    """Compile SsbScript text inside an exploration."""
    I = P.I
    c = I.call(P.mod(SSBC).ns["SsbScriptSsbCompiler"], [], {})
    I.call_method(c, "compile", [text])
    return c


def exact(model, routine_ops, infos, named, dmodes=False):
    """Compiled tables against the routine set, op for op. -> (rule, text) or None"""
    rs = model.rset
    if not (len(routine_ops) == len(infos) == len(named) == len(rs.routines)):
        return "routines", f"{len(rs.routines)} routines, compiled: {len(routine_ops)} op lists, {len(infos)} infos, {len(named)} names"
    at = {}
    for r, row in enumerate(routine_ops):
        for i, o in enumerate(row):
            if o.cls.name != "SsbOperation":
                return "ops", f"routine {r} holds a {o.cls.name}"
            at.setdefault(o.d["offset"], []).append((r, i))
    for r, ((h, ops), row, inf) in enumerate(zip(rs.routines, routine_ops, infos)):
        k, lt, ln = inf.d["type"].d["name"], inf.d["linked_to"], inf.d["linked_to_name"]
        if k != h.kind:
            return "routine kind", f"routine {r} is {h.kind}, compiled as {k}"
        if k in ("ACTOR", "OBJECT", "PERFORMER"):
            w = model.kinds[r]
            if not same((w[1], w[2]), (lt, ln)):
                return "routine target", f"routine {r} is for {w[1:3]}, compiled for {(lt, ln)}"
        if k == "COROUTINE" and not same((h.name,), (named[r],)):
            return "coroutine name", f"coroutine {r} is {h.name}, compiled as {named[r]!r}"
        if len(row) != len(ops):
            return "ops", f"routine {r} has {len(ops)} ops, compiled {len(row)}"
        for i, (o, c) in enumerate(zip(ops, row)):
            nm = c.d["op_code"].d["name"]
            if not same((o.name,), (nm,)):
                return "opcode", f"op {i} of routine {r} is {o.name}, compiled as {nm}"
            ps = [norm_param(p) for p in c.d["params"]]
            if o.target is not None:
                if not ps or ps[-1][0] != "i":
                    return "jump target", f"op {i} of routine {r} ({o.name}) has no jump parameter: {ps}"
                t = at.get(ps.pop()[1], [])
                if t != [o.target]:
                    return "jump target", f"op {i} of routine {r} ({o.name}) goes to {o.target}, compiled: {t}"
            want = [p.norm for p in o.params]
            if not same(tuple(want), tuple(ps)):
                return "parameters", f"op {i} of routine {r} ({o.name}) has {want}, compiled: {ps}"
    return None
