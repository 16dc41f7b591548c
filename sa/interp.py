"""The abstract machine: attribute lookup, calls, operators, exceptions, modules; and the exploration driver."""
from __future__ import annotations

import ast
import importlib
import operator as _op
import os
import zlib
import sys
import threading
import time

from .engine import *
from .engine import _targets
from . import engine
from .values import *

REPO = os.environ.get("VERIF_REPO", "/repo")
MODELS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "models")

_AST_CACHE = {}


def parse_file(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _AST_CACHE:
        with open(path, "r", encoding="utf-8") as f:
            _AST_CACHE[k] = ast.parse(f.read(), path)
    return _AST_CACHE[k]


class Interp:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.native_modules = {}
        self.unmodelled = None
        self.builtins = {}
        self.lines = set()
        self.calls = {}
        self.steps = 0
        self.max_steps = 3_000_000
        self.depth = 0
        self.max_depth = 900
        self.rec_exc = False  # RecursionError is raised in the program instead of giving up
        self.fs = {}  # virtual file system: path -> text
        self.out = []
        self.err = []
        self.hooks = {}
        self.watch = frozenset()
        self.code_cache = {}
        self.writes = None  # effect log (see effects)
        self.set_order = None  # order of sets: None (as the host) | "asc" | "desc" | "mix" | function answering one of these
        self.locals = []  # thread-local objects: [object, arguments, keywords, content in the other thread]
        self.pair = None  # two calls at the same time (see threads)
        self.thread = 0  # which of them runs
        self.ids = None  # id(): None (of the host) | IdModel
        Ctl.interp = self
        from . import pymodel

        pymodel.install(self)

    def reset(self):
        """Forget all program state (modules are re-evaluated); keep translated code."""
        self.modules = {}
        self.locals = []
        self.steps = 0
        self.depth = 0
        self.out = []
        self.err = []
        self.exit_code = None
        Ctl.interp = self

    def site_of(self, o, fr):
        """Remember where in the analysed program a watched object is created (innermost frames first)."""
        r = []
        while fr is not None and len(r) < 6:
            if fr.func is not None:
                r.append((fr.func.qual, fr.func.file, fr.ln))
            fr = fr.back if fr.back is not None else fr.parent
        o.site = r

    # ------------------------------------------------------------------ modules
    def import_module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in self.native_modules:
            m = Module(name)
            m.ns.update(self.native_modules[name](self))
            self.modules[name] = m
            return m
        path = None
        base = name.replace(".", "/")
        for root in (self.repo, MODELS):
            for cand in (os.path.join(root, base + ".py"), os.path.join(root, base, "__init__.py")):
                if os.path.isfile(cand):
                    path = cand
                    break
            if path:
                break
        if path is None:
            if name.split(".")[0] in sys.stdlib_module_names:
                raise Undecided(f"module '{name}' is not modelled")
            raise PyExc(ImportError(f"No module named '{name}'"))
        if "." in name:
            self.import_module(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        m = Module(name, path)
        self.modules[name] = m
        self.exec_module(m, path)
        if "." in name:
            pk, last = name.rsplit(".", 1)
            self.modules[pk].ns[last] = m
        return m

    def native_has(self, mod, name):
        """Does the modelled module have the name in the real library? (Only the standard library is looked up.)"""
        if mod.split(".")[0] not in sys.stdlib_module_names:
            return True
        try:
            return hasattr(importlib.import_module(mod), name)
        except ImportError:
            return False

    def run_main(self, name, argv):
        """`python -m name argv...`: the module's own code under the name __main__."""
        path = os.path.join(self.repo, name.replace(".", "/") + ".py")
        self.import_module(name.rsplit(".", 1)[0])
        self.argv[:] = [path] + list(argv)
        m = Module("__main__", path)
        m.ns["__name__"] = "__main__"
        self.exec_module(m, path, False)
        return m

    def exec_module(self, m, path, cache=True):
        code = self.code_cache.get(path) if cache else None
        if code is None:
            tree = parse_file(path)
            c = Compiler(self, m, path)
            sc = engine.Scope("module", set(), None)
            code = c.block(tree.body, sc)
            if cache:
                self.code_cache[path] = code
        fr = Frame(None, m.ns, None)
        code(fr)

    def module_public(self, m):
        if "__all__" in m.ns:
            return {k: m.ns[k] for k in m.ns["__all__"]}
        return {k: v for k, v in m.ns.items() if not k.startswith("_")}

    def import_from(self, m, mod, name):
        if name in m.ns:
            return m.ns[name]
        if m.ns.get("__getattr__"):
            return m.ns["__getattr__"](name)
        if mod in self.native_modules and self.native_has(mod, name):
            raise Undecided(f"'{mod}.{name}' is not modelled")
        try:
            return self.import_module(mod + "." + name)
        except PyExc as e:
            raise PyExc(ImportError(f"cannot import name '{name}' from '{mod}'")) from None

    # ------------------------------------------------------------------ classes
    def mkclass(self, name, bases, ns, module, qual):
        bs = []
        for b in bases:
            if isinstance(b, TypingThing):
                if b.name.startswith("TypedDict"):
                    bs.append(self.typed_dict_base)
                continue
            if isinstance(b, (Cls, type)):
                if b not in bs:
                    bs.append(b)
            else:
                raise Undecided(f"base class {b!r}")
        bs = [b for b in bs if b is not object or len(bs) == 1]
        c = Cls(name, [b for b in bs if b is not object], ns, module, qual)
        for k, v in list(ns.items()):
            if isinstance(v, Func) and v.cls is None:
                v.cls = c
            elif isinstance(v, Prop):
                for g in (v.fget, v.fset):
                    if isinstance(g, Func) and g.cls is None:
                        g.cls = c
            elif isinstance(v, (Static, ClsMethod)) and isinstance(v.fn, Func) and v.fn.cls is None:
                v.fn.cls = c
        if c.is_enum:
            self.finish_enum(c)
        return c

    def finish_enum(self, c):
        n = 0
        for k, v in list(c.ns.items()):
            if k.startswith("_") or isinstance(v, (Func, Prop, Static, ClsMethod, Native, Cls)):
                continue
            if isinstance(v, EnumAuto):
                n += 1
                v = n
            elif isinstance(v, int):
                n = v
            o = None
            targs = list(v) if isinstance(v, tuple) else [v]
            new = c.find("__new__")
            if new is not None and isinstance(new.fn if isinstance(new, Static) else new, Func):
                o = self.call(new.fn if isinstance(new, Static) else new, [c] + targs, {})
            else:
                o = Obj(c)
            if "_value_" in o.d:
                v = o.d["_value_"]
            for b in c.mro:
                if b in (int, str) and o.hv is None:
                    o.hv = v
            o.d["name"] = k
            o.d["value"] = v
            o.d["_name_"] = k
            o.d["_value_"] = v
            init = c.find("__init__")
            if isinstance(init, Func):
                self.call(init, [o] + targs, {})
            c.ns[k] = o
            c.members[k] = o

    def decorate(self, d, v, fr):
        return self.call(d, [v], {}, fr)

    # ------------------------------------------------------------------ type questions
    def type_of(self, v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, AStr):
            return str
        if isinstance(v, SInt):
            return int
        if isinstance(v, Cls):
            return type
        return type(v)

    def isinstance(self, v, c):
        if isinstance(c, tuple):
            return any(self.isinstance(v, x) for x in c)
        if isinstance(c, Cls):
            if isinstance(v, Obj):
                return c in v.cls.mro
            return False
        if isinstance(c, type):
            if c is object:
                return True
            if isinstance(v, Obj):
                return any(isinstance(b, type) and issubclass(b, c) for b in v.cls.mro)
            if isinstance(v, AStr):
                return c is str
            if isinstance(v, SInt):
                return c is int
            if isinstance(v, (Cls,)):
                return c is type
            return isinstance(v, c)
        if isinstance(c, TypingThing):
            return c.inst(self, v) if hasattr(c, "inst") else self._typing_inst(v, c)
        raise PyExc(TypeError("isinstance() arg 2 must be a type"))

    def _typing_inst(self, v, c):
        nm = c.name
        m = {"List": list, "Dict": dict, "Set": set, "Tuple": tuple, "Mapping": dict, "MutableSequence": list}
        if nm in m:
            return isinstance(v, m[nm])
        if nm == "Sequence":
            return isinstance(v, (list, tuple, str, AStr, range))
        if nm == "Iterable":
            return isinstance(v, (list, tuple, str, AStr, range, dict, set)) or hasattr(v, "__next__")
        if nm.startswith("|"):
            return any(self.isinstance(v, x) for x in c.args)
        raise Undecided(f"isinstance against {c}")

    def issubclass(self, a, b):
        if isinstance(b, tuple):
            return any(self.issubclass(a, x) for x in b)
        if isinstance(a, Cls):
            return b in a.mro or any(isinstance(x, type) and isinstance(b, type) and issubclass(x, b) for x in a.mro) or b is object
        return isinstance(b, type) and issubclass(a, b)

    # ------------------------------------------------------------------ truth / equality
    def truth(self, v):
        if v is None or v is True or v is False:
            return bool(v)
        t = type(v)
        if t is Obj:
            m = v.cls.find("__bool__")
            if m is not None:
                return self.truth(self.call(m, [v], {}))
            m = v.cls.find("__len__")
            if m is not None:
                return self.truth(self.call(m, [v], {}))
            if v.hv is not None and not isinstance(v.hv, BaseException):
                return bool(v.hv)
            return True
        if t in (Func, Bound, Native, Cls, Module):
            return True
        return self.native(bool, v)

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        if isinstance(a, (int, str)) and type(a) is type(b) and not isinstance(a, bool):
            # identity of small ints / interned strings; other cases are implementation-defined
            if isinstance(a, int):
                return a == b and -5 <= a <= 256
            return a == b
        return False

    def eq(self, a, b):
        if a is b:
            return True
        ta, tb = type(a), type(b)
        if ta is Obj or tb is Obj:
            for x, y in ((a, b), (b, a)):
                if type(x) is Obj:
                    m = x.cls.eq_
                    if m is not None:
                        r = self.call(m, [x, y], {})
                        if r is not NotImplemented:
                            return r
                    elif x.hv is not None and not isinstance(x.hv, BaseException):
                        return self.eq(x.hv, y)
            return False
        if ta is Cls or tb is Cls or ta is Func or tb is Func:
            return False
        if tb in (AStr, SInt) and ta not in (AStr, SInt):
            return self.native(_op.eq, b, a)
        return self.native(_op.eq, a, b)

    def ne(self, a, b):
        if type(a) is Obj:
            m = a.cls.find("__ne__")
            if m is not None:
                return self.call(m, [a, b], {})
        r = self.eq(a, b)
        return not self.truth(r)

    def compare(self, op, a, b):
        if op is ast.Eq:
            return self.eq(a, b)
        if op is ast.NotEq:
            return self.ne(a, b)
        if op is ast.Is:
            return self.is_(a, b)
        if op is ast.IsNot:
            return not self.is_(a, b)
        if op is ast.In:
            return self.contains(b, a)
        if op is ast.NotIn:
            return not self.contains(b, a)
        nm, rn, ho = {ast.Lt: ("__lt__", "__gt__", _op.lt), ast.LtE: ("__le__", "__ge__", _op.le), ast.Gt: ("__gt__", "__lt__", _op.gt), ast.GtE: ("__ge__", "__le__", _op.ge)}[op]
        if type(a) is Obj:
            m = a.cls.find(nm)
            if m is not None:
                r = self.call(m, [a, b], {})
                if r is not NotImplemented:
                    return r
            if a.hv is not None:
                return self.compare(op, a.hv, b)
            if type(b) is not Obj:
                raise PyExc(TypeError("unorderable"))
        if type(b) is Obj:
            m = b.cls.find(rn)
            if m is not None:
                r = self.call(m, [b, a], {})
                if r is not NotImplemented:
                    return r
            if b.hv is not None:
                return self.compare(op, a, b.hv)
            raise PyExc(TypeError("unorderable"))
        if isinstance(b, (SInt, AStr)) and not isinstance(a, (SInt, AStr)):
            if isinstance(b, SInt) != isinstance(a, (int, float)):
                raise PyExc(TypeError("unorderable"))
            return self.native({ast.Lt: _op.gt, ast.LtE: _op.ge, ast.Gt: _op.lt, ast.GtE: _op.le}[op], b, a)
        if isinstance(a, (SInt, AStr)):
            if isinstance(a, SInt) != isinstance(b, (int, float, SInt)):
                raise PyExc(TypeError("unorderable"))
        return self.native(ho, a, b)

    def contains(self, c, x, l=False):
        t = type(c)
        if t is dict or t is set or t is frozenset:
            return self.find_key(c, x) is not MISSING
        if t is list or t is tuple:
            for y in c:
                if y is x or self.truth(self.eq(y, x)):
                    return True
            return False
        if t is Obj:
            m = c.cls.find("__contains__")
            if m is not None:
                return self.truth(self.call(m, [c, x], {}))
            if c.hv is not None:
                return self.contains(c.hv, x)
            if c.cls.find("__iter__"):
                return any(self.truth(self.eq(y, x)) for y in self.iterate(c))
            raise PyExc(TypeError(f"argument of type '{c.cls.name}' is not iterable"))
        if t is AStr:
            if not isinstance(x, (str, AStr)):
                raise PyExc(TypeError("'in <string>' requires string"))
            return c.contains(x)
        if t is str and isinstance(x, AStr):
            # unknown string inside a constant
            return AStr((c,)).contains(x) if c else False
        if t is Cls and c.is_enum:
            return x in c.members.values()
        return self.native(_op.contains, c, x)

    def has_unknown(self, x):
        if isinstance(x, (AStr, SInt)):
            return True
        if isinstance(x, tuple):
            return any(self.has_unknown(y) for y in x)
        return False

    def find_key(self, d, k):
        """The key of dict/set d equal to k, or MISSING; asks the oracle where equality is open."""
        if not self.has_unknown(k):
            if type(k) is Obj and k.cls.eq_ is None and k.hv is None:
                return k if k in d else MISSING
            try:
                if k in d:
                    return k
            except TypeError as e:
                raise PyExc(e)
            for y in d:
                if self.has_unknown(y) and self.truth(self.eq(y, k)):
                    return y
            return MISSING
        for y in d:
            if y is k:
                return y
        for y in d:
            if self.truth(self.eq(y, k)):
                return y
        return MISSING

    def mkset(self, items):
        s = set()
        for x in items:
            self.set_add(s, x)
        return s

    def set_add(self, s, x):
        if self.find_key(s, x) is MISSING:
            self.native(s.add, x)

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, nm, default=MISSING):
        t = type(o)
        if t is Obj:
            v = o.d.get(nm, MISSING)
            cls = o.cls
            if v is not MISSING:
                return v
            v = cls.find(nm)
            if v is not None or any(isinstance(c, Cls) and nm in c.ns for c in cls.mro):
                if type(v) is Func or type(v) is Native:
                    return Bound(o, v)
                if type(v) is Prop:
                    return self.call(v.fget, [o], {})
                if type(v) is Static:
                    return v.fn
                if type(v) is ClsMethod:
                    return Bound(cls, v.fn)
                return v
            if nm == "__class__":
                return cls
            if nm == "__dict__":
                return o.d
            if o.hv is not None:
                if isinstance(o.hv, (dict, list, set, str, tuple, int)):
                    try:
                        return self.getattr(o.hv, nm)
                    except PyExc:
                        pass
                elif isinstance(o.hv, BaseException) and nm in ("with_traceback",):
                    return Native(lambda tb: o)
            if cls.hostexc is not None:
                if nm == "args":
                    return ()
                if nm in ("__cause__", "__context__", "__traceback__", "__suppress_context__"):
                    return None
                if issubclass(cls.hostexc, BaseException) and nm == "with_traceback":
                    return Native(lambda tb: o)
            if nm in ("__init__", "__str__", "__repr__", "__eq__", "__hash__"):
                return Native(lambda *a, **k: self.obj_default(o, nm, a))
            g = cls.find("__getattr__")
            if g is not None:
                return self.call(g, [o, nm], {})
            if self.unmodelled is not None and any(isinstance(c, Cls) and c.native_model for c in cls.mro) and self.unmodelled(nm):
                raise Undecided(f"antlr4: '{cls.name}.{nm}' is not modelled")
            if default is not MISSING:
                return default
            raise PyExc(AttributeError(f"'{cls.name}' object has no attribute '{nm}'"))
        if t is Module:
            if nm in o.ns:
                return o.ns[nm]
            if o.ns.get("__getattr__"):
                return o.ns["__getattr__"](nm)
            if nm == "__dict__":
                return o.ns
            if o.name in self.native_modules and self.native_has(o.name, nm):
                raise Undecided(f"'{o.name}.{nm}' is not modelled")
            if default is not MISSING:
                return default
            raise PyExc(AttributeError(f"module '{o.name}' has no attribute '{nm}'"))
        if t is Cls:
            c, v = o.find_in(nm)
            if c is not None:
                if type(v) is Static:
                    return v.fn
                if type(v) is ClsMethod:
                    return Bound(o, v.fn)
                return v
            if nm == "__name__":
                return o.name
            if nm == "__qualname__":
                return o.qual
            if nm == "__module__":
                return o.module
            if nm == "__mro__":
                return tuple(o.mro)
            if nm == "__bases__":
                return tuple(o.bases) or (object,)
            if nm == "__subclasses__":
                return Native(lambda: [])
            if nm == "__members__" and o.is_enum:
                return dict(o.members)
            if nm == "__init__":
                return Native(lambda s, *a, **k: self.default_init(s, a, k))
            if nm == "__new__":
                return Native(lambda cc, *a, **k: Obj(cc))
            if nm == "__doc__":
                return None
            if default is not MISSING:
                return default
            raise PyExc(AttributeError(f"type object '{o.name}' has no attribute '{nm}'"))
        if t is Super:
            mro = o.obj.cls.mro if type(o.obj) is Obj else o.obj.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, Cls) and nm in c.ns:
                    v = c.ns[nm]
                    if type(v) is Prop:
                        return self.call(v.fget, [o.obj], {})
                    if type(v) is Static:
                        return v.fn
                    if type(v) is ClsMethod:
                        return Bound(o.obj.cls if type(o.obj) is Obj else o.obj, v.fn)
                    return Bound(o.obj, v)
            return Native(lambda *a, **k: self.obj_default(o.obj, nm, a, k))
        if t is Func:
            if nm == "__name__":
                return o.name
            if nm == "__doc__":
                return None
            if nm == "__qualname__":
                return o.qual
            if nm == "__module__":
                return o.module
            if o.attrs and nm in o.attrs:
                return o.attrs[nm]
            if default is not MISSING:
                return default
            raise PyExc(AttributeError(nm))
        if t is Bound:
            if nm == "__self__":
                return o.self
            if nm == "__func__":
                return o.fn
            return self.getattr(o.fn, nm, default)
        if t is Frame:
            if nm == "f_back":
                b = o.back
                while b is not None and b.func is o.func and b.func is not None and b is not o and o.parent is b:
                    break
                return b
            if nm == "f_locals":
                return self.frame_locals(o)
            if nm == "f_globals":
                return o.glob
            raise Undecided("frame attribute " + nm)
        if t is TypingThing:
            return TypingThing(o.name + "." + nm)
        if t is AStr:
            if nm in ASTR_METHODS:
                m = getattr(o, nm)
                if nm == "join":
                    return Native(lambda it: o.join(list(self.iterate(it))))
                if nm in ("format", ):
                    raise Undecided("format")
                return Native(m, nm)
            if hasattr(str, nm):
                raise Undecided(f"str.{nm} of unknown text")
            if default is not MISSING:
                return default
            raise PyExc(AttributeError(f"'str' object has no attribute '{nm}'"))
        if t is SInt:
            if hasattr(int, nm):
                raise Undecided(f"int.{nm}")
            if default is not MISSING:
                return default
            raise PyExc(AttributeError(f"'int' object has no attribute '{nm}'"))
        m = self.pymethods.get(t)
        if m is not None:
            f = m.get(nm)
            if f is not None:
                return Native(lambda *a, **k: f(self, o, *a, **k), nm)
        if isinstance(o, type):
            if nm == "__name__":
                return o.__name__
            if o is object and nm == "__new__":
                return Native(lambda c, *a, **k: Obj(c), "__new__")
            if o is object and nm == "__setattr__":
                return Native(self.plain_setattr, nm)
            if o is object and nm == "__getattribute__":
                return Native(lambda s, n: self.getattr(s, n), nm)
            r = self.type_attrs.get((o, nm))
            if r is not None:
                return r
            if o in self.pymethods and nm in self.pymethods[o]:
                f = self.pymethods[o][nm]
                return Native(lambda s, *a, **k: f(self, s, *a, **k), nm)
        allow = self.host_attrs.get(t)
        if allow is not None:
            if nm in allow:
                v = getattr(o, nm)
                if callable(v) and not isinstance(v, (Obj, Func, Bound, Native, Cls)):
                    return Native(v, nm)
                return v
            if nm != "__class__" and default is MISSING and (t.__module__.startswith("sa.") and not nm.startswith("_") or hasattr(t, nm) and t.__module__ in ("builtins", "collections")):
                raise Undecided(f"{t.__name__}.{nm} is not modelled")
            if default is not MISSING:
                return default
            raise PyExc(AttributeError(f"'{t.__name__}' object has no attribute '{nm}'"))
        if nm == "__class__":
            return self.type_of(o)
        if isinstance(o, BaseException) and nm in ("args", "__cause__", "__context__", "__traceback__", "errno", "filename", "strerror", "msg", "name", "key"):
            return getattr(o, nm, None)
        try:
            v = getattr(o, nm)
        except AttributeError as e:
            if default is not MISSING:
                return default
            raise PyExc(AttributeError(str(e))) from None
        if isinstance(o, HOST_OK + (type,)) or isinstance(o, BaseException):
            if callable(v):
                return Native(v, nm)
            return v
        if hasattr(o, "__next__"):
            return Native(v, nm)
        raise Undecided(f"attribute {nm} of {t.__name__}")

    def frame_locals(self, fr):
        d = {}
        chain = []
        x = fr
        while x is not None:
            chain.append(x)
            x = x.parent
        # only variables of the function itself plus the free variables it references are visible; the enclosing
        # function's variables are included only for comprehension frames
        d.update(fr.vars)
        x = fr
        while x.parent is not None and x.parent.func is x.func:
            x = x.parent
            for k, v in x.vars.items():
                d.setdefault(k, v)
        if fr.func is None:
            return fr.glob
        return d

    def setattr(self, o, nm, v):
        t = type(o)
        if t is Obj:
            p = o.cls.find(nm)
            if type(p) is Prop:
                if p.fset is None:
                    raise PyExc(AttributeError(f"property '{nm}' of '{o.cls.name}' object has no setter"))
                self.call(p.fset, [o, v], {})
                return
            s = o.cls.find("__setattr__")
            if s is not None:
                self.call(s, [o, nm, v], {})
                return
            if self.writes is not None:
                self.writes("attr", o, nm)
            o.d[nm] = v
            return
        if t is Cls:
            if self.writes is not None:
                self.writes("clsattr", o, nm)
            o.ns[nm] = v
            if nm == "__eq__":
                o.eq_ = v
            return
        if t is Module:
            if self.writes is not None:
                self.writes("modattr", o, nm)
            o.ns[nm] = v
            return
        if t is Func:
            if o.attrs is None:
                o.attrs = {}
            if self.writes is not None:
                self.writes("funcattr", o, nm)
            o.attrs[nm] = v
            return
        if isinstance(o, BaseException):
            setattr(o, nm, v if isinstance(v, BaseException) or v is None else None)
            return
        raise PyExc(AttributeError(f"'{t.__name__}' object has no attribute '{nm}'"))

    # ------------------------------------------------------------------ items
    def getitem(self, o, k):
        t = type(o)
        if t is dict:
            kk = self.find_key(o, k)
            if kk is MISSING:
                raise PyExc(KeyError(k))
            return o[kk]
        if t is Obj:
            m = o.cls.find("__getitem__")
            if m is not None:
                return self.call(m, [o, k], {})
            if o.hv is not None and not isinstance(o.hv, BaseException):
                kk = self.find_key(o.hv, k) if isinstance(o.hv, dict) else k
                if kk is MISSING:
                    mm = o.cls.find("__missing__")
                    if mm is not None:
                        return self.call(mm, [o, k], {})
                return self.getitem(o.hv, k)
            raise PyExc(TypeError(f"'{o.cls.name}' object is not subscriptable"))
        if t is Cls:
            if o.is_enum:
                if k in o.members:
                    return o.members[k]
                raise PyExc(KeyError(k))
            g = o.find("__class_getitem__")
            if g is not None and type(g) is ClsMethod:
                return self.call(g.fn, [o, k], {})
            return o
        if t is TypingThing:
            r = TypingThing(o.name)
            r.args = k if isinstance(k, tuple) else (k,)
            return r
        if isinstance(o, type):
            if issubclass(o, (list, dict, set, tuple, frozenset, type)) or o.__name__ in ("deque", "Counter", "defaultdict", "OrderedDict"):
                return o
            raise PyExc(TypeError(f"type '{o.__name__}' is not subscriptable"))
        if t is list or t is tuple or t is str:
            if isinstance(k, SInt):
                raise Undecided("unknown index")
            if isinstance(k, slice):
                if any(isinstance(x, SInt) for x in (k.start, k.stop, k.step)):
                    raise Undecided("unknown slice")
        if t is Native or t is Func:
            raise PyExc(TypeError("not subscriptable"))
        return self.native(_op.getitem, o, k)

    def plain_setattr(self, o, nm, v):
        if type(o) is not Obj:
            raise Undecided("object.__setattr__")
        p = o.cls.find(nm)
        if type(p) is Prop:
            if p.fset is None:
                raise PyExc(AttributeError(f"property '{nm}' of '{o.cls.name}' object has no setter"))
            self.call(p.fset, [o, v], {})
            return
        if self.writes is not None:
            self.writes("attr", o, nm)
        o.d[nm] = v

    def setitem(self, o, k, v):
        t = type(o)
        if t is dict:
            if self.writes is not None:
                self.writes("item", o, k)
            kk = self.find_key(o, k)
            self.native(_op.setitem, o, k if kk is MISSING else kk, v)
            return
        if t is Obj:
            m = o.cls.find("__setitem__")
            if m is not None:
                self.call(m, [o, k, v], {})
                return
            if o.hv is not None:
                self.setitem(o.hv, k, v)
                return
            raise PyExc(TypeError(f"'{o.cls.name}' object does not support item assignment"))
        if isinstance(k, SInt):
            raise Undecided("unknown index")
        if t in (str, AStr, tuple, int, type(None)):
            raise PyExc(TypeError(f"'{t.__name__}' object does not support item assignment"))
        if self.writes is not None:
            self.writes("item", o, k)
        if isinstance(k, slice):
            v = list(self.iterate(v))
        self.native(_op.setitem, o, k, v)

    def delitem(self, o, k):
        if type(o) is dict:
            kk = self.find_key(o, k)
            if kk is MISSING:
                raise PyExc(KeyError(k))
            if self.writes is not None:
                self.writes("item", o, k)
            del o[kk]
            return
        if type(o) is Obj:
            m = o.cls.find("__delitem__")
            if m is not None:
                self.call(m, [o, k], {})
                return
            if o.hv is not None:
                return self.delitem(o.hv, k)
        if self.writes is not None:
            self.writes("item", o, k)
        self.native(_op.delitem, o, k)

    def dict_items(self, d):
        if isinstance(d, dict):
            return list(d.items())
        if type(d) is Obj and isinstance(d.hv, dict):
            return list(d.hv.items())
        raise PyExc(TypeError("not a mapping"))

    # ------------------------------------------------------------------ operators
    def binop(self, op, a, b):
        ta, tb = type(a), type(b)
        if ta is int and tb is int or (ta is str and tb is str and op is ast.Add):
            return self.native(BINOPS[op], a, b)
        if ta is Obj or tb is Obj:
            dn = DUNDER[op]
            if ta is Obj:
                m = a.cls.find(dn)
                if m is not None:
                    r = self.call(m, [a, b], {})
                    if r is not NotImplemented:
                        return r
            if tb is Obj:
                m = b.cls.find("__r" + dn[2:])
                if m is not None:
                    r = self.call(m, [b, a], {})
                    if r is not NotImplemented:
                        return r
            x = a.hv if ta is Obj and a.hv is not None and not isinstance(a.hv, BaseException) else a
            y = b.hv if tb is Obj and b.hv is not None and not isinstance(b.hv, BaseException) else b
            if x is not a or y is not b:
                return self.binop(op, x, y)
            raise PyExc(TypeError(f"unsupported operand type(s): {self.tname(a)} and {self.tname(b)}"))
        if op is ast.BitOr and (ta in (Cls, TypingThing) or tb in (Cls, TypingThing) or isinstance(a, type) or isinstance(b, type)):
            r = TypingThing("|")
            r.args = (a, b)
            return r
        if op is ast.Mod and ta in (str, AStr):
            return self.percent(a, b)
        if op is ast.Mult and isinstance(b, SInt) and ta in (str, list, tuple, AStr) or op is ast.Mult and isinstance(a, SInt) and tb in (str, list, tuple, AStr):
            raise Undecided("repetition by an unknown count")
        if ta in (AStr, str) and tb in (AStr, str) and op is ast.Add:
            return mkstr(parts_of(a) + parts_of(b))
        if (ta in (AStr, SInt) or tb in (AStr, SInt)) and not (ta in (int, bool, SInt) and tb in (int, bool, SInt)):
            if not (op is ast.Mult and (ta is AStr and tb is int or tb is AStr and ta is int)):
                if (ta is SInt and tb is float) or (tb is SInt and ta is float):
                    raise Undecided("float arithmetic with unknown")
                raise PyExc(TypeError(f"unsupported operand type(s): {self.tname(a)} and {self.tname(b)}"))
        if ta in (set, frozenset) and tb in (set, frozenset):
            return self.setop(op, a, b)
        if ta is dict and tb is dict and op is ast.BitOr:
            d = dict(a)
            for k, v in b.items():
                self.setitem(d, k, v)
            return d
        return self.native(BINOPS[op], a, b)

    def setop(self, op, a, b):
        if op is ast.Sub:
            return {x for x in a if self.find_key(b, x) is MISSING}
        if op is ast.BitAnd:
            return {x for x in a if self.find_key(b, x) is not MISSING}
        if op is ast.BitOr:
            r = set(a)
            for x in b:
                self.set_add(r, x)
            return r
        return self.native(BINOPS[op], a, b)

    def iop(self, op, a, b):
        ta = type(a)
        if ta is list and op is ast.Add:
            if self.writes is not None:
                self.writes("item", a, None)
            a.extend(self.iterate(b))
            return a
        if ta is Obj:
            m = a.cls.find("__i" + DUNDER[op][2:])
            if m is not None:
                return self.call(m, [a, b], {})
        if ta in (set, dict):
            if ta is set and isinstance(b, (set, frozenset)):
                r = self.setop(op, a, b)
                if self.writes is not None:
                    self.writes("item", a, None)
                a.clear()
                a.update(r)
                return a
            if ta is dict and op is ast.BitOr:
                for k, v in self.dict_items(b):
                    self.setitem(a, k, v)
                return a
        return self.binop(op, a, b)

    def tname(self, v):
        t = self.type_of(v)
        return t.name if isinstance(t, Cls) else t.__name__

    def percent(self, a, b):
        if isinstance(a, str) and not self.has_unknown(b) and not isinstance(b, (Obj, list, dict)):
            return self.native(_op.mod, a, b)
        if isinstance(a, str):
            args = list(b) if isinstance(b, tuple) else [b]
            out = []
            i = 0
            while i < len(a):
                if a[i] == "%" and i + 1 < len(a):
                    c = a[i + 1]
                    if c == "%":
                        out.append("%")
                    elif c in "sdi":
                        out.extend(parts_of(self.str(args.pop(0))))
                    elif c == "r":
                        out.extend(parts_of(self.repr(args.pop(0))))
                    else:
                        raise Undecided("% format")
                    i += 2
                else:
                    out.append(a[i])
                    i += 1
            return mkstr(out)
        raise Undecided("% format")

    def native(self, fn, *a, **k):
        try:
            return fn(*a, **k)
        except (PyExc, Undecided):
            raise
        except RecursionError:
            raise Limit("recursion")
        except (TypeError, ValueError, KeyError, IndexError, AttributeError, ZeroDivisionError, StopIteration, OverflowError, UnicodeError, OSError, LookupError, RuntimeError) as e:
            raise PyExc(e) from None

    # ------------------------------------------------------------------ text
    def str(self, v):
        t = type(v)
        if t is str or t is AStr:
            return v
        if t is SInt:
            return v.to_str()
        if t is Obj:
            m = v.cls.find("__str__")
            if m is not None:
                r = self.call(m, [v], {})
                return r
            if v.cls.hostexc is not None and issubclass(v.cls.hostexc, BaseException):
                a = v.d.get("args", ())
                if len(a) == 0:
                    return ""
                if len(a) == 1:
                    return self.str(a[0])
                return self.str(a)
            if isinstance(v.hv, (str, AStr)):
                return v.hv
            return self.repr(v)
        if t in self.host_str:
            return str(v)
        if isinstance(v, BaseException):
            a = v.args
            if len(a) == 0:
                return ""
            if len(a) == 1:
                return self.repr(a[0]) if isinstance(v, KeyError) else self.str(a[0])
            return self.repr(a)
        return self.repr(v)

    def repr(self, v):
        t = type(v)
        if t is str:
            return repr(v)
        if t is AStr:
            if all(isinstance(p, str) or p.kind in ("name", "dec", "pdec", "var", "plain", "txt") for p in v.parts):
                cs = "".join(p for p in v.parts if isinstance(p, str))
                r = repr(cs)
                q = r[0]
                return mkstr([q] + [p if not isinstance(p, str) else _reprbody(p, q) for p in v.parts] + [q])
            return AStr((Atom(f"repr({v!r})", "content", False),))
        if t is SInt:
            return v.to_str()
        if t is Obj:
            m = v.cls.find("__repr__")
            if m is not None:
                return self.call(m, [v], {})
            if v.cls.is_enum:
                return f"<{v.cls.name}.{v.d['name']}: {v.d['value']!r}>"
            if v.hv is not None and not isinstance(v.hv, BaseException):
                return self.repr(v.hv)
            if v.cls.hostexc is not None:
                return mkstr([v.cls.name, "("] + list(parts_of(self._join([self.repr(x) for x in v.d.get("args", ())], ", "))) + [")"])
            return f"<{v.cls.module}.{v.cls.qual} object>"
        if t is list:
            return mkstr(["["] + list(parts_of(self._join([self.repr(x) for x in v], ", "))) + ["]"])
        if t is tuple:
            if len(v) == 1:
                return mkstr(["("] + list(parts_of(self.repr(v[0]))) + [",)"])
            return mkstr(["("] + list(parts_of(self._join([self.repr(x) for x in v], ", "))) + [")"])
        if t is dict:
            return mkstr(["{"] + list(parts_of(self._join([mkstr(parts_of(self.repr(a)) + (": ",) + parts_of(self.repr(b))) for a, b in v.items()], ", "))) + ["}"])
        if t in (set, frozenset) and v:
            return mkstr(["{"] + list(parts_of(self._join([self.repr(x) for x in v], ", "))) + ["}"])
        if t is Cls:
            return f"<class '{v.module}.{v.qual}'>"
        if isinstance(v, HOST_OK):
            return repr(v)
        return f"<{t.__name__}>"

    def _join(self, xs, sep):
        out = []
        for i, x in enumerate(xs):
            if i:
                out.append(sep)
            out.extend(parts_of(x))
        return mkstr(out)

    def format(self, v, spec):
        if isinstance(spec, AStr):
            raise Undecided("format spec")
        if type(v) is Obj:
            m = v.cls.find("__format__")
            if m is not None:
                return self.call(m, [v, spec], {})
        if spec == "":
            if type(v) is Obj and v.cls.is_enum and v.cls.find("__str__") is None:
                return f"{v.cls.name}.{v.d['name']}"
            return self.str(v)
        if isinstance(v, (AStr, SInt)):
            s = self.str(v)
            return AStr((Atom(f"format({s!r},{spec!r})", "content", False),))
        if isinstance(v, (int, float, str)):
            return self.native(format, v, spec)
        if spec == "":
            return self.str(v)
        raise Undecided("format spec")

    # ------------------------------------------------------------------ iteration
    def iterate(self, v):
        t = type(v)
        if t is list:
            return self._iter_list(v)
        if t is tuple or t is range:
            return iter(v)
        if t is dict:
            return self._iter_sized(v)
        if t is set or t is frozenset:
            return self._iter_sized(v, self.ordered(v))
        if t is str:
            return iter(v)
        if t is Obj:
            m = v.cls.find("__iter__")
            if m is not None:
                r = self.call(m, [v], {})
                if r is v:
                    return self._iter_next(v)
                return self.iterate(r)
            if v.cls.find("__next__") is not None:
                return self._iter_next(v)
            if v.cls.find("__getitem__") is not None:
                return self._iter_getitem(v)
            if v.hv is not None and not isinstance(v.hv, BaseException):
                return self.iterate(v.hv)
            raise PyExc(TypeError(f"'{v.cls.name}' object is not iterable"))
        if t is Cls and v.is_enum:
            return iter(list(v.members.values()))
        if t in (SInt, int, float, bool, type(None), Func, Bound, Native, Cls):
            raise PyExc(TypeError(f"'{self.tname(v)}' object is not iterable"))
        if t is AStr:
            return iter(v)
        if hasattr(v, "__iter__"):
            return self._iter_host(v)
        raise PyExc(TypeError(f"'{t.__name__}' object is not iterable"))

    def _iter_host(self, v):
        try:
            it = iter(v)
        except TypeError as e:
            raise PyExc(e)
        return it

    def _iter_list(self, v):
        i = 0
        while i < len(v):
            yield v[i]
            i += 1

    def ordered(self, s):
        """The elements of a set in the order of this analysis; sets of integers have one order in every process."""
        l = list(s)
        o = self.set_order
        if o is None or len(l) < 2 or all(type(x) is int for x in l):
            return l
        if not isinstance(o, str):
            o = o()
        if o == "mix":
            return sorted(l, key=lambda x: (zlib.crc32(_okey(x).encode()), _okey(x)))
        return sorted(l, key=_okey, reverse=o == "desc")

    def _iter_sized(self, v, l=None):
        n = len(v)
        for x in l if l is not None else list(v):
            if len(v) != n:
                raise PyExc(RuntimeError("container changed size during iteration"))
            yield x
        if len(v) != n:
            raise PyExc(RuntimeError("container changed size during iteration"))

    def _iter_next(self, v):
        m = v.cls.find("__next__")
        while True:
            try:
                x = self.call(m, [v], {})
            except PyExc as e:
                if isinstance(e.value, StopIteration) or (type(e.value) is Obj and e.value.cls.hostexc is StopIteration):
                    return
                raise
            yield x

    def _iter_getitem(self, v):
        i = 0
        while True:
            try:
                x = self.getitem(v, i)
            except PyExc as e:
                if isinstance(e.value, IndexError):
                    return
                raise
            yield x
            i += 1

    # ------------------------------------------------------------------ calls
    def kw(self, kws, fr):
        d = {}
        for k, e in kws:
            if k is None:
                for kk, vv in self.dict_items(e(fr)):
                    d[kk] = vv
            else:
                d[k] = e(fr)
        return d

    def call_method(self, o, nm, args, kw=None):
        return self.call(self.getattr(o, nm), args, kw or {})

    def call_method_fr(self, o, nm, ae, kws, fr):
        t = type(o)
        if t is Obj:
            if nm not in o.d:
                v = o.cls.find(nm)
                if type(v) is Func:
                    a = ae(fr)
                    a.insert(0, o)
                    return self.call_func(v, a, self.kw(kws, fr) if kws else {}, fr)
        fn = self.getattr(o, nm)
        a = ae(fr)
        return self.call(fn, a, self.kw(kws, fr) if kws else {}, fr)

    def call(self, fn, args, kw, fr=None):
        t = type(fn)
        if t is Func:
            return self.call_func(fn, args, kw, fr)
        if t is Bound:
            return self.call(fn.fn, [fn.self] + list(args), kw, fr)
        if t is Cls:
            return self.instantiate(fn, args, kw, fr)
        if t is Native:
            if fn.frame:
                return self.native(fn.fn, fr, *args, **kw)
            return self.native(fn.fn, *args, **kw)
        if t is Obj:
            m = fn.cls.find("__call__")
            if m is None:
                raise PyExc(TypeError(f"'{fn.cls.name}' object is not callable"))
            return self.call(m, [fn] + list(args), kw, fr)
        if isinstance(fn, type):
            h = self.type_ctor.get(fn)
            if h is not None:
                return self.native(h, *args, **kw)
            if issubclass(fn, BaseException):
                return fn(*args)
            if fn in self.host_attrs:
                return self.native(fn, *args, **kw)
            raise Undecided(f"constructor {fn}")
        if t is TypingThing:
            if fn.name in ("TypeVar", "NewType"):
                return TypingThing(str(args[0]))
            return TypingThing(fn.name)
        raise PyExc(TypeError(f"'{self.tname(fn)}' object is not callable"))

    def call_func(self, fn, args, kw, back=None):
        h = self.hooks.get(fn.qual)
        if h is not None:
            r = h(self, fn, args, kw)
            if r is not MISSING:
                return r
        fr = Frame(fn.parent, fn.glob, fn)
        vars = fr.vars
        params = fn.params
        na = len(args)
        np_ = len(params)
        if na == np_ and not kw and fn.simple:
            for i in range(np_):
                vars[params[i]] = args[i]
        else:
            if na > np_:
                if fn.vararg is None:
                    raise PyExc(TypeError(f"{fn.qual}() takes {np_} positional arguments but {na} were given"))
            for i in range(min(na, np_)):
                vars[params[i]] = args[i]
            if fn.vararg is not None:
                vars[fn.vararg] = tuple(args[np_:])
            extra = {}
            for k, v in kw.items():
                if k in vars and k in params or (k in vars and k in fn.kwonly):
                    raise PyExc(TypeError(f"{fn.qual}() got multiple values for argument '{k}'"))
                if k in params or k in fn.kwonly:
                    vars[k] = v
                else:
                    extra[k] = v
            if extra:
                if fn.kwarg is None:
                    raise PyExc(TypeError(f"{fn.qual}() got an unexpected keyword argument '{next(iter(extra))}'"))
            if fn.kwarg is not None:
                vars[fn.kwarg] = extra
            nd = len(fn.defaults)
            for i in range(np_):
                if params[i] not in vars:
                    j = i - (np_ - nd)
                    if j < 0:
                        raise PyExc(TypeError(f"{fn.qual}() missing required argument '{params[i]}'"))
                    vars[params[i]] = fn.defaults[j]
            for k in fn.kwonly:
                if k not in vars:
                    if k not in fn.kwdefaults:
                        raise PyExc(TypeError(f"{fn.qual}() missing keyword-only argument '{k}'"))
                    vars[k] = fn.kwdefaults[k]
        fr.back = back
        self.calls[fn.code] = fn
        if fn.isgen:
            return fn.code(fr)
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth -= 1
            if self.rec_exc:
                raise PyExc(RecursionError("maximum recursion depth exceeded"))
            raise Limit("call depth")
        try:
            r = fn.code(fr)
        except PyExc as e:
            if len(e.trace) < 40:
                e.trace.append((fn.qual, fn.file, fr.ln))
            raise
        finally:
            self.depth -= 1
        if r is None:
            return None
        return r.v

    def instantiate(self, c, args, kw, fr=None):
        if c.functional is not None:
            return c.functional(*args, **kw)
        if c.is_enum:
            if len(args) == 1:
                for m in c.members.values():
                    if self.truth(self.eq(m.d["value"], args[0])):
                        return m
                raise PyExc(ValueError(f"{args[0]!r} is not a valid {c.name}"))
        if c.td:
            d = {}
            d.update(kw)
            return d
        new = c.find("__new__")
        if new is not None:
            o = self.call(new.fn if isinstance(new, Static) else new, [c] + list(args), kw, fr)
            if type(o) is not Obj or c not in o.cls.mro:
                return o
        else:
            o = Obj(c)
        if c.name in self.watch:
            self.site_of(o, fr)
        for b in c.mro:
            if isinstance(b, type):
                if issubclass(b, BaseException):
                    o.d["args"] = tuple(args)
                elif b in (dict, list, set, str, int, tuple) and o.hv is None:
                    o.hv = b() if b in (dict, list, set) else self.call(b, args, {})
                break
        init = c.find("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kw, fr)
        else:
            self.default_init(o, args, kw)
        return o

    def default_init(self, o, args, kw):
        c = o.cls
        if c.hostexc is not None and issubclass(c.hostexc, BaseException):
            o.d["args"] = tuple(args)
            return None
        if isinstance(o.hv, dict):
            if args:
                for k, v in (self.dict_items(args[0]) if isinstance(args[0], dict) else list(self.iterate(args[0]))):
                    self.setitem(o.hv, k, v)
            for k, v in kw.items():
                o.hv[k] = v
            return None
        if isinstance(o.hv, list):
            if args:
                o.hv.extend(self.iterate(args[0]))
            return None
        if isinstance(o.hv, (set,)):
            if args:
                for x in self.iterate(args[0]):
                    self.set_add(o.hv, x)
            return None
        if o.hv is not None:
            return None
        if args or kw:
            raise PyExc(TypeError(f"{c.name}() takes no arguments"))
        return None

    def obj_default(self, o, nm, a, k=None):
        if nm == "__init__":
            return self.default_init(o, a, k or {})
        if nm == "__str__":
            if isinstance(o, Obj) and o.cls.hostexc is not None:
                aa = o.d.get("args", ())
                return "" if not aa else self.str(aa[0]) if len(aa) == 1 else self.str(aa)
            return self.repr(o)
        if nm == "__repr__":
            return f"<{o.cls.name} object>"
        if nm == "__eq__":
            return True if o is a[0] else NotImplemented
        if nm == "__hash__":
            return id(o) >> 4
        if nm in ("__init_subclass__", "__setattr__"):
            if nm == "__setattr__":
                o.d[a[0]] = a[1]
            return None
        if nm == "__new__":
            return Obj(a[0])
        if isinstance(o, Obj) and o.hv is not None:
            return self.call(self.getattr(o.hv, nm), list(a), k or {})
        raise PyExc(AttributeError(f"'super' object has no attribute '{nm}'"))

    # ------------------------------------------------------------------ exceptions
    def is_exc(self, v):
        if isinstance(v, BaseException):
            return True
        return type(v) is Obj and v.cls.hostexc is not None and issubclass(v.cls.hostexc, BaseException)

    def exc_set(self, v, nm, x):
        if type(v) is Obj:
            v.d[nm] = x
        else:
            try:
                if isinstance(x, BaseException) or x is None:
                    setattr(v, nm, x)
            except TypeError:
                pass

    def exc_match(self, v, t):
        if isinstance(t, tuple):
            return any(self.exc_match(v, x) for x in t)
        if isinstance(t, Cls):
            return type(v) is Obj and t in v.cls.mro
        if isinstance(t, type):
            if type(v) is Obj:
                return v.cls.hostexc is not None and issubclass(v.cls.hostexc, t)
            return isinstance(v, t)
        raise PyExc(TypeError("catching classes that do not inherit from BaseException is not allowed"))

    def enter(self, m):
        if type(m) is Obj:
            f = m.cls.find("__enter__")
            if f is None:
                raise PyExc(TypeError(f"'{m.cls.name}' object does not support the context manager protocol"))
            return self.call(f, [m], {})
        if hasattr(m, "__enter__"):
            return self.native(m.__enter__)
        raise PyExc(AttributeError("__enter__"))

    def exit(self, m, e):
        a = [None, None, None] if e is None else [self.type_of(e.value), e.value, None]
        if type(m) is Obj:
            return self.call(m.cls.find("__exit__"), [m] + a, {})
        return self.native(m.__exit__, *a)


def _okey(x):
    if isinstance(x, (int, str, type(None))):
        return f"{type(x).__name__} {x:>12}" if x is not None else ""
    if isinstance(x, tuple):
        return "tuple " + " ".join(map(_okey, x))
    i = getattr(x, "idx", None)
    if i is not None:
        return f"idx {i:>6}"
    if isinstance(x, AStr):
        return f"str {x!r}"
    if type(x) is Obj and "name" in x.d and isinstance(x.d["name"], str):
        return "obj " + x.d["name"]
    if type(x) is Obj:
        return "obj " + x.cls.name + " ".join(f"{k}={_okey(v) if isinstance(v, (int, str)) else ''}" for k, v in x.d.items())
    return type(x).__name__


def _reprbody(p, q):
    r = repr(p)
    if r[0] == q:
        return r[1:-1]
    return r[1:-1]


# ---------------------------------------------------------------------------------------------- exploration


class Oracle:
    """Replays a prefix of decisions, extends it with defaults, and remembers every answer of the trace."""

    def __init__(self, prefix, max_choices=60):
        self.prefix = prefix
        self.taken = []  # list of (key, answer)
        self.memo = {}
        self.iv = {}
        self.max = max_choices
        self.assume = {}

    def decide(self, key, default=None):
        if key in self.memo:
            return self.memo[key]
        if key in self.assume:
            self.memo[key] = self.assume[key]
            return self.assume[key]
        r = self.branch(key, default)
        self.memo[key] = r
        return r

    def branch(self, key, thunk=None):
        if Ctl.rep:
            return rep_answer(key, thunk)
        i = len(self.taken)
        if i < len(self.prefix):
            r = self.prefix[i]
        else:
            if i >= self.max:
                raise Limit("too many open questions in one trace")
            r = False
        self.taken.append((key, r))
        return r

    def intq(self, op, d):
        """d == 0 / d < 0 for a linear form d; one interval plus excluded points is kept per base form."""
        s = 1 if d.t[0][1] > 0 else -1
        g = abs(d.t[0][1])
        base = tuple((k, s * v) for k, v in d.t)
        iv = self.iv.setdefault(base, [None, None, set()])
        # s*base + c
        lo, hi, ex = iv
        if len(base) == 1 and g == 1 and base[0][0] in self.bounds:
            bl, bh = self.bounds[base[0][0]]
            if bl is not None and (lo is None or lo < bl):
                lo = iv[0] = bl
            if bh is not None and (hi is None or hi > bh):
                hi = iv[1] = bh
        if op == "eq":
            v = -d.c * s
            if (lo is not None and v < lo) or (hi is not None and v > hi) or v in ex:
                return False
            if lo is not None and lo == hi == v:
                return True
            r = self.branch(("eq", base, v))
            if r:
                iv[0] = iv[1] = v
            else:
                ex.add(v)
                if iv[0] == v:
                    iv[0] = v + 1
                if iv[1] == v:
                    iv[1] = v - 1
            return r
        # s*base + c < 0
        if s > 0:
            v = -d.c  # base < v
            if hi is not None and hi < v:
                return True
            if lo is not None and lo >= v:
                return False
            r = self.branch(("lt", base, v))
            if r:
                iv[1] = v - 1
            else:
                iv[0] = v
            return r
        v = d.c  # base > c
        if lo is not None and lo > v:
            return True
        if hi is not None and hi <= v:
            return False
        r = self.branch(("gt", base, v))
        if r:
            iv[0] = v + 1
        else:
            iv[1] = v
        return r

    bounds = {}


class Explorer:
    """Runs `body()` once per resolution of the open questions."""

    def __init__(self, max_traces=64, assume=None, bounds=None, max_choices=60):
        self.max_traces = max_traces
        self.assume = assume or {}
        self.bounds = bounds or {}
        self.max_choices = max_choices
        self.traces = 0
        self.cut = False

    def run(self, body):
        stack = [()]
        while stack:
            if self.traces >= self.max_traces:
                self.cut = True
                return
            prefix = stack.pop()
            o = Oracle(prefix, self.max_choices)
            o.assume = dict(self.assume)
            o.bounds = self.bounds
            Ctl.oracle = o
            self.traces += 1
            yield body, o
            taken = o.taken
            for i in range(len(taken) - 1, len(prefix) - 1, -1):
                stack.append(tuple(x[1] for x in taken[:i]) + (not taken[i][1],))


def in_big_stack(fn):
    """Run fn in a thread with a large stack."""
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    res = {}

    def go():
        try:
            res["v"] = fn()
        except BaseException as e:  # noqa
            res["e"] = e

    t = threading.Thread(target=go)
    t.start()
    t.join()
    if "e" in res:
        raise res["e"]
    return res.get("v")
