"""SSB machine model over (abstract) op lists and the trace-equivalence walk against a reference LTS."""
from __future__ import annotations

from .engine import Obj
from .spec import STOP, STOPPERS
from .values import AStr, SInt, mkstr
from . import values

JUMPS = {
    "Jump": 0, "Call": 0, "Branch": 2, "BranchBit": 2, "BranchDebug": 1, "BranchEdit": 1, "BranchExecuteSub": 1,
    "BranchPerformance": 2, "BranchScenarioNow": 3, "BranchScenarioNowAfter": 3, "BranchScenarioNowBefore": 3,
    "BranchScenarioAfter": 3, "BranchScenarioBefore": 3, "BranchSum": 3, "BranchValue": 3, "BranchVariable": 3,
    "BranchVariation": 1, "Case": 1, "CaseMenu": 1, "CaseMenu2": 1, "CaseScenario": 2, "CaseValue": 2, "CaseVariable": 2,
}


class Bad(Exception):
    def __init__(self, rule, msg, op=None):
        super().__init__(msg)
        self.rule, self.msg, self.op = rule, msg, op


class MOp:
    __slots__ = ("off", "name", "params", "obj", "r", "i")

    def __init__(self, off, name, params, obj, r, i):
        self.off, self.name, self.params, self.obj, self.r, self.i = off, name, params, obj, r, i

    def __repr__(self):
        return f"{self.off}:{self.name}{self.params}"


def norm_param(p, I=None):
    if isinstance(p, Obj):
        n = p.cls.name
        d = p.d
        if n == "SsbOpParamConstant":
            return ("c", d["name"])
        if n == "SsbOpParamConstString":
            return ("s", d["name"])
        if n == "SsbOpParamLanguageString":
            return ("l", tuple(sorted(d["strings"].items())))
        if n == "SsbOpParamPositionMarker":
            return ("p", d["name"], d["x_relative"], d["y_relative"], d["x_offset"], d["y_offset"])
        if n == "SsbOpParamFixedPoint":
            return ("fx", d["value"])
        return ("?", n)
    if isinstance(p, (int, SInt)) and not isinstance(p, bool):
        return ("i", p)
    return ("?", repr(p))


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (AStr, SInt)) or isinstance(b, (AStr, SInt)):
        if isinstance(a, AStr) and isinstance(b, AStr) and a.parts == b.parts:
            return True
        return bool(a == b)
    return type(a) is type(b) and a == b


class Code:
    """Op tables of one compilation result."""

    def __init__(self, routine_ops):
        self.routines = []
        self.at = {}
        self.dups = []
        for r, ops in enumerate(routine_ops):
            row = []
            for i, o in enumerate(ops):
                d = o.d
                nm = d["op_code"].d["name"] if "op_code" in d else o.cls.name
                m = MOp(d["offset"], nm, [norm_param(p) for p in d["params"]], o, r, i)
                row.append(m)
                if m.off in self.at:
                    self.dups.append(m)
                self.at[m.off] = m
            self.routines.append(row)

    def next(self, m):
        row = self.routines[m.r]
        if m.i + 1 < len(row):
            return row[m.i + 1]
        return None

    def target(self, m):
        if not m.params or m.params[-1][0] != "i" or not isinstance(m.params[-1][1], int):
            raise Bad("target", f"{m} has no jump target as last parameter", m)
        t = self.at.get(m.params[-1][1])
        if t is None:
            raise Bad("target", f"{m} jumps to {m.params[-1][1]}, which is no op of the result", m)
        return t

    def settle(self, m, jumps=None):
        """Follow Jump ops. -> op | 'div' | None when control falls off the end of the op list."""
        seen = set()
        while m is not None and m.name == "Jump":
            if m.off in seen:
                return "div"
            seen.add(m.off)
            if jumps is not None:
                jumps.append(m)
            m = self.target(m)
        return m


def settle_ref(n, path=None):
    seen = set()
    while n.kind == "eps":
        if id(n) in seen:
            return "div"
        seen.add(id(n))
        if path is not None and n.jkey is not None:
            path.append(n)
        n = n.a
    return n


def site(op):
    s = getattr(op.obj, "site", None) if op is not None else None
    if not s:
        return "?"
    for q, f, l in s:
        if not (q.endswith("__init__") or ".<" in q):
            return f"{f.split('/explorerscript/')[-1]}:{q}"
    return s[0][0]


def walk(entry, code, start, fall_ok=False, pairs=None, jumps=None):
    """Simultaneous walk. Raises Bad on the first difference. Returns number of state pairs.

    pairs: list collecting (ref node, MOp).  fall_ok: falling off the op list means Return (not for compile results)."""
    seen = set()
    todo = [(entry, start, ())]
    cnt = 0
    while todo:
        n, m, trail = todo.pop()
        rp, mj = [], []
        n = settle_ref(n, rp)
        m = code.settle(m, mj)
        if jumps is not None and mj:
            jumps.append((rp, mj, n))
        if n == "div" or m == "div":
            if n != m:
                raise Bad("divergence", f"{'source' if n == 'div' else 'output'} loops silently, the other side does not; after {show(trail)}", mj[-1] if mj else None)
            continue
        if m is None:
            if n is STOP or (fall_ok and n.kind == "op" and n.name == "Return"):
                continue
            raise Bad("fall-off", f"control falls off the op list of the routine; source expects {n.name} after {show(trail)}", mj[-1] if mj else (trail[-1] if trail else None))
        k = (id(n), m.off)
        if k in seen:
            continue
        seen.add(k)
        cnt += 1
        if cnt > 20000:
            raise values.Undecided("state space")
        if n.kind == "op":
            if m.name in JUMPS and m.name != "Jump" and not same(n.name, m.name):
                raise Bad("order", f"output tests {m.name}{m.params} where the source performs {n.name}{n.params}; after {show(trail)}", m)
            if not same(n.name, m.name):
                raise Bad("order", f"output performs {m.name}{m.params} where the source performs {n.name}{n.params}; after {show(trail)}", m)
            if not same(tuple(n.params), tuple(m.params)):
                raise Bad("params", f"{m.name} has parameters {m.params}, the source says {n.params}", m)
            if pairs is not None:
                pairs.append((n, m))
            if n.a is STOP:
                if n.name not in STOPPERS:
                    raise AssertionError
                continue
            todo.append((n.a, code.next(m), trail + (m,)))
        elif n.kind in ("test", "call"):
            nm = n.name if n.kind == "test" else "Call"
            if not same(m.name, nm):
                raise Bad("order", f"output has {m.name}{m.params} where the source tests {nm}{n.params}; after {show(trail)}", m)
            if n.kind == "test" and not same(tuple(n.params), tuple(m.params[:-1])):
                raise Bad("params", f"{m.name} has parameters {m.params[:-1]}, the source says {n.params}", m)
            if n.kind == "call" and len(m.params) != 1:
                raise Bad("params", f"Call has parameters {m.params}", m)
            if pairs is not None:
                pairs.append((n, m))
            todo.append((n.a, code.target(m), trail + (m,)))
            todo.append((n.b, code.next(m), trail + (m,)))
        else:
            raise Bad("order", f"output goes on with {m} where the source stopped", m)
    return cnt


def show(trail):
    return "[" + " ".join(f"{m.off}:{m.name}" for m in trail[-6:]) + "]"
