"""Effects of a call on state that outlives it: what is reachable from the modules, classes and functions of the program."""
from __future__ import annotations

import collections
import os
import sys
import weakref

from .engine import Bound, Cls, ClsMethod, Frame, Func, Module, Native, Obj, Prop, Static
from .values import AStr, SInt

ATOMIC = (int, str, float, bool, type(None), bytes, AStr, SInt)


class IdModel:
    """id(): numbers of objects that are gone are given to new objects, in the order in which they were given first."""

    def __init__(self):
        self.by = {}
        self.n = 0
        self.free = []
        self.keep = []

    def __call__(self, v):
        e = self.by.get(id(v))
        if e is not None and e[1]() is v:
            return e[0]
        if self.free:
            n = self.free.pop(0)
        else:
            self.n += 16
            n = 140000000000000 + self.n
        k = id(v)
        try:
            r = weakref.ref(v, lambda _r, k=k, n=n: self._dead(k, n))
        except TypeError:
            self.keep.append(v)  # until the end of the call
            r = lambda v=v: v
        self.by[k] = (n, r)
        return n

    def _dead(self, k, n):
        e = self.by.get(k)
        if e is not None and e[0] == n:
            del self.by[k]
        self.free.append(n)
        self.free.sort()

    def end_of_call(self):
        import gc

        for v in self.keep:
            e = self.by.pop(id(v), None)
            if e is not None:
                self.free.append(e[0])
        self.keep = []
        gc.collect()
        self.free.sort()


def show(v, d=0):
    """A value as text when it is immutable, else None."""
    if isinstance(v, ATOMIC):
        return repr(v)
    if isinstance(v, (tuple, frozenset)):
        xs = [show(x, d + 1) for x in v] if d < 4 else [None]
        return None if None in xs else f"{type(v).__name__}({', '.join(xs)})"
    if isinstance(v, (Func, Cls, Native, Module, type)):
        return repr(v)
    if type(v) is Obj and v.cls.is_enum:
        return f"{v.cls.name}.{v.d.get('name')}"
    if type(v).__name__ == "Pattern":
        return repr(v)
    return None


def site(I, up=2):
    """(file, function) of the program in which the interpreter is."""
    f = sys._getframe(up)
    while f is not None:
        fr = f.f_locals.get("fr")
        if isinstance(fr, Frame) and fr.func is not None:
            return (os.path.relpath(fr.func.file, I.repo), fr.func.qual)
        f = f.f_back
    return ("?", "?")


class Effects:
    def __init__(self, P):
        self.P = P
        self.I = P.I
        self.shared = {}  # id -> (object, where)
        self.log = {}  # (where, key or None) -> {"sites": set, "values": set, "n": int, "mutable": bool}
        self.pending = []
        self.refresh()

    # -------------------------------------------------------- reachability
    def refresh(self):
        seen = self.shared
        todo = []
        self.visited = set()
        for m in self.I.modules.values():
            todo.append((m, m.name))
        while todo:
            v, w = todo.pop()
            if isinstance(v, ATOMIC) or id(v) in self.visited:
                continue
            t = type(v)
            self.visited.add(id(v))
            if t is Module:
                seen[id(v)] = (v, w)
                seen[id(v.ns)] = (v.ns, w)
                for k, x in v.ns.items():
                    if type(x) is not Module:
                        todo.append((x, f"{w}.{k}"))
            elif t is Cls:
                if v.name == "local":
                    continue
                seen[id(v)] = (v, w)
                for k, x in v.ns.items():
                    todo.append((x, f"{v.qual}.{k}"))
                for b in v.bases:
                    todo.append((b, w))
            elif t is Func:
                seen[id(v)] = (v, w)
                for i, x in enumerate(v.defaults):
                    todo.append((x, f"default {i} of {v.qual}"))
                for k, x in v.kwdefaults.items():
                    todo.append((x, f"default {k} of {v.qual}"))
                for k, x in (v.attrs or {}).items():
                    todo.append((x, f"{v.qual}.{k}"))
                fr = v.parent
                while isinstance(fr, Frame):
                    seen[id(fr.vars)] = (fr.vars, f"closure of {v.qual}")
                    for k, x in fr.vars.items():
                        todo.append((x, f"{k} in the closure of {v.qual}"))
                    fr = fr.parent
            elif t is Native:
                if v.state is not None:
                    todo.append((v.state, f"{w} (memo)"))
            elif t is Bound:
                todo.append((v.self, w))
                todo.append((v.fn, w))
            elif t in (Static, ClsMethod):
                todo.append((v.fn, w))
            elif t is Prop:
                for x in (v.fget, v.fset):
                    todo.append((x, w))
            elif t is Obj:
                if v.cls.name == "local" or any(isinstance(b, Cls) and b.name == "local" for b in v.cls.mro):
                    continue
                seen[id(v)] = (v, w)
                seen[id(v.d)] = (v.d, w)
                for k, x in v.d.items():
                    todo.append((x, f"{w}.{k}"))
                if v.hv is not None and not isinstance(v.hv, BaseException):
                    todo.append((v.hv, w))
            elif isinstance(v, (dict, collections.OrderedDict)):
                seen[id(v)] = (v, w)
                for k, x in v.items():
                    todo.append((x, f"{w}[...]"))
                    todo.append((k, w))
            elif isinstance(v, (list, set, frozenset, tuple, collections.deque)):
                if not isinstance(v, (tuple, frozenset)):
                    seen[id(v)] = (v, w)
                for x in v:
                    todo.append((x, f"{w}[...]"))

    # -------------------------------------------------------- recording
    def site(self):
        return site(self.I, 3)

    def hook(self, kind, o, k):
        if o is None:
            self.pending.append((("process: " + str(k), None), None, kind, self.site()))
            return
        e = self.shared.get(id(o))
        if e is None or e[0] is not o:
            return
        where = e[1]
        if kind in ("attr", "clsattr", "modattr", "glob", "nonlocal", "funcattr"):
            key = k
        else:
            key = show(k) if k is not None else None
        self.pending.append(((where, key), (o, k), kind, self.site()))

    def begin(self):
        self.I.writes = self.hook
        self.pending = []

    def end(self):
        """-> locations written by the call"""
        self.I.writes = None
        out = set()
        for loc, ok, kind, site in self.pending:
            r = self.log.setdefault(loc, {"sites": set(), "values": set(), "n": 0, "unstable": False})
            r["sites"].add(site)
            r["n"] += 1
            out.add(loc)
            val = None
            if ok is not None and loc[1] is not None:
                o, k = ok
                try:
                    if kind in ("attr", "modattr", "clsattr"):
                        val = show((o.d if type(o) is Obj else o.ns)[k])
                    elif kind == "funcattr":
                        val = show(o.attrs[k])
                    else:
                        val = show(o[k])
                except Exception:
                    val = None
            if val is None:
                r["unstable"] = True
            else:
                r["values"].add(val)
        if self.pending:
            self.refresh()
        self.pending = []
        return out

    def conflicts(self):
        """Locations whose content is not the same after every call that wrote it."""
        return {loc: r for loc, r in self.log.items() if r["unstable"] or len(r["values"]) > 1}
