"""Subjects (one compilation or decompilation each) and the results they give, as plain values that can be compared."""
from __future__ import annotations

from . import families as fam
from . import decfam as D
from .engine import Obj
from .machine import norm_param
from .model import Model, schemes, SSBC
from .pipe import COMPILER, Result
from .project import as_project
from .values import AStr, SInt


def snap(v, d=0, seen=None):
    """A value graph as nested tuples; enum members by name."""
    if isinstance(v, (int, str, float, bool, type(None), bytes)):
        return v
    if isinstance(v, (AStr, SInt)):
        return repr(v)
    if seen is None:
        seen = {}
    if id(v) in seen:
        return ("seen", seen[id(v)])
    if isinstance(v, Obj) and v.cls.is_enum:
        return (v.cls.name, v.d.get("name"))
    seen[id(v)] = len(seen)
    try:
        if isinstance(v, Obj):
            r = [v.cls.name]
            for k in sorted(v.d):
                r.append((k, snap(v.d[k], d + 1, seen)))
            if v.hv is not None:
                r.append(("value", snap(v.hv, d + 1, seen)))
            return tuple(r)
        if isinstance(v, dict):
            return ("dict",) + tuple(sorted(((snap(k, d + 1, seen), snap(x, d + 1, seen)) for k, x in v.items()), key=repr))
        if isinstance(v, (list, tuple)):
            return (type(v).__name__,) + tuple(snap(x, d + 1, seen) for x in v)
        if isinstance(v, (set, frozenset)):
            return ("set",) + tuple(sorted((snap(x, d + 1, seen) for x in v), key=repr))
        return (type(v).__name__,)
    finally:
        del seen[id(v)]


def op_snap(o):
    d = o.d
    if o.cls.name != "SsbOperation":
        return (o.cls.name, snap(o))
    return (d["offset"] if not isinstance(d["offset"], SInt) else repr(d["offset"]), d["op_code"].d["id"], snap(d["op_code"].d["name"]), tuple(repr(norm_param(p)) for p in d["params"]))


def ops_snap(rows):
    return tuple(tuple(op_snap(o) for o in row) for row in rows)


def infos_snap(infos):
    return tuple((i.d["type"].d["name"], snap(i.d["linked_to"]), snap(i.d["linked_to_name"])) for i in infos)


def tables(ops, infos, named):
    return (("ops", ops_snap(ops)), ("routine infos", infos_snap(infos)), ("coroutine names", tuple(snap(n) for n in named)))


class Subject:
    """run(P, env) -> live result (inside an exploration); view(live) -> comparable value."""

    kind = "?"

    def __init__(self, name):
        self.name = name


class Compile(Subject):
    kind = "compile"

    def __init__(self, name, prog):
        super().__init__(name)
        self.p = as_project(prog)
        self.p.render()

    def run(self, P, env):
        p = self.p
        c = env.get("exps")
        if c is not None:
            c.d["lookup_paths"] = list(p.lookup or [])
        r = P.compile_raw(p.src[p.path], p.path, p.fs(), p.lookup, c)
        return r

    def view(self, r):
        return tables(r.ops, r.infos, r.named) + (("source map", snap(r.sm)),)

    def text(self):
        return self.p.text()


class Raw(Compile):
    def __init__(self, name, src):
        Subject.__init__(self, name)
        self.src = src

    def run(self, P, env):
        c = env.get("exps")
        if c is not None:
            c.d["lookup_paths"] = []
        return P.compile_raw(self.src, compiler=c)

    def text(self):
        return self.src


class SsbCompile(Subject):
    kind = "compile SsbScript"

    def __init__(self, name, rset):
        from .spec import render

        super().__init__(name)
        self.src = render(rset.toks())[0]

    def run(self, P, env):
        I = P.I
        c = env.get("ssbs")
        if c is None:
            c = I.call(P.mod(SSBC).ns["SsbScriptSsbCompiler"], [], {})
        I.call_method(c, "compile", [self.src])
        r = Result()
        d = c.d
        r.ops, r.infos, r.named, r.sm = d["routine_ops"], d["routine_infos"], d["named_coroutines"], d["source_map"]
        return r

    view = Compile.view

    def text(self):
        from .spec import rep_text

        return rep_text(self.src)


class Decompile(Subject):
    def __init__(self, name, rset, num, ssbs):
        super().__init__(name)
        self.rset, self.num, self.ssbs = rset, num, ssbs
        self.kind = "decompile to SsbScript" if ssbs else "decompile"

    def make(self, P, m):
        if self.ssbs:
            return m.ssbs_decompiler(P)
        return m.exps_decompiler(P, dm=D.DM)

    def run(self, P, env):
        m = Model(P, self.rset, schemes()[self.num])
        return tuple(P.I.iterate(P.I.call_method(self.make(P, m), "convert", [])))

    def view(self, r):
        t, sm = r
        return (("text", snap(t)), ("source map", snap(sm)))

    def text(self):
        return f"{self.num}\n" + "\n".join(f"{h.kind} {[(o.name, [p.norm for p in o.params], o.target) for o in ops]}" for h, ops in self.rset.routines)


def low_stack(P, depth):
    """Context manager-free switch of the modelled stack limit. -> old"""
    I = P.I
    old = I.max_depth, I.rec_exc
    I.max_depth, I.rec_exc = depth, True
    return old


def run(P, s, env=None, depth=900):
    """-> (view, live)"""
    old = low_stack(P, depth)
    try:
        r = P.one(lambda: s.run(P, env or {}))
    finally:
        P.I.max_depth, P.I.rec_exc = old
    if isinstance(r, Result) and r.exc is not None:
        return ("raised", r.name, r), None
    return s.view(r), r


def differ(a, b):
    """Which of the results differs. -> text or None"""
    if a[0] == "raised" or b[0] == "raised":
        if a[0] == b[0]:
            return None if a[1] == b[1] else f"raises {b[1]} instead of {a[1]}"
        if b[0] == "raised":
            return f"raises {D.fail(b[2])}"
        return f"gives a result instead of raising {a[1]}"
    for (n, x), (_n, y) in zip(a, b):
        if x != y:
            return f"other {n}: {first_diff(x, y)}"
    return None


def first_diff(x, y):
    if type(x) is tuple and type(y) is tuple and x and y:
        if len(x) == len(y):
            for p, q in zip(x, y):
                if p != q:
                    return first_diff(p, q)
        return f"{str(x)[:150]} / {str(y)[:150]}"
    if isinstance(x, str) and isinstance(y, str):
        k = 0
        while k < min(len(x), len(y)) and x[k] == y[k]:
            k += 1
        return f"...{x[max(0, k - 40):k + 60]!r} / ...{y[max(0, k - 40):k + 60]!r}"
    return f"{x!r} / {y!r}"
