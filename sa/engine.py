"""Abstract interpreter for the Python subset the repository is written in.

The source files are parsed to syntax trees; no repository code is imported or executed.  Each syntax tree node is
translated into a transfer function (a closure) over abstract values (sa.values).  Questions about unknown values fork
the analysis (Explorer: both answers are explored, answers are remembered per trace).
"""
from __future__ import annotations

import ast
import collections
import builtins as _bi
import os
import operator as _op

from .values import AStr, Atom, Ctl, SInt, Undecided, mkint, mkstr, parts_of, ASTR_METHODS

HOSTEXC = {n: getattr(_bi, n) for n in dir(_bi) if isinstance(getattr(_bi, n), type) and issubclass(getattr(_bi, n), BaseException)}


class PyExc(Exception):
    """An exception of the analysed program."""

    def __init__(self, value):
        self.value = value
        self.trace = []

    def __str__(self):
        return f"{exc_name(self.value)}: {exc_text(self.value)}"


class Limit(Undecided):
    pass


def exc_name(v):
    return v.cls.name if isinstance(v, Obj) else type(v).__name__


def exc_text(v):
    if isinstance(v, Obj):
        a = v.d.get("args", ())
        return ", ".join(repr(x) for x in a)
    return ", ".join(repr(x) for x in getattr(v, "args", ()))


# ---------------------------------------------------------------------------------------------- program objects


HOST_BUILTINS = frozenset(dir(__import__("builtins")))


def not_defined(name):
    if name in HOST_BUILTINS:
        return Undecided(f"builtin '{name}' is not modelled")
    return PyExc(NameError(f"name '{name}' is not defined"))


class Cls:
    __slots__ = ("name", "bases", "ns", "mro", "module", "hostexc", "is_enum", "members", "qual", "node", "hash_", "eq_", "slots_cache", "td", "native_model", "is_named_tuple", "functional", "dc_fields")

    def __init__(self, name, bases, ns, module="?", qual=None):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.qual = qual or name
        self.is_enum = any(isinstance(b, Cls) and b.is_enum for b in bases)
        self.members = {}
        self.native_model = False
        self.is_named_tuple = False
        self.functional = None
        self.node = None
        self.td = any(isinstance(b, Cls) and b.td for b in bases)
        self.slots_cache = {}
        # C3 is overkill: the repository uses plain left-to-right linearisation without diamonds through siblings
        self.mro = _c3(self)
        self.hostexc = None
        for b in self.mro:
            if isinstance(b, type):
                self.hostexc = b
                break
        self.eq_ = self.find("__eq__")
        self.hash_ = self.find("__hash__")

    def find(self, name):
        for c in self.mro:
            if isinstance(c, Cls):
                if name in c.ns:
                    return c.ns[name]
        return None

    def find_in(self, name):
        for c in self.mro:
            if isinstance(c, Cls) and name in c.ns:
                return c, c.ns[name]
        return None, None

    def __repr__(self):
        return f"<class {self.qual}>"

    def __call__(self, *a, **k):
        return Ctl.interp.call(self, list(a), k)


def _c3(cls):
    seqs = []
    for b in cls.bases:
        seqs.append(list(b.mro) if isinstance(b, Cls) else [b])
    seqs.append(list(cls.bases))
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise Undecided("inconsistent class hierarchy")
        out.append(c)
        for s in seqs:
            if s[0] is c:
                s.pop(0)


class Obj:
    __slots__ = ("cls", "d", "__weakref__", "hv", "site")

    def __init__(self, cls):
        self.cls = cls
        self.d = {}
        self.hv = None  # host payload (str/int/list subclass, exceptions)

    def __repr__(self):
        return f"<{self.cls.name}>"

    def __eq__(self, o):
        if self is o:
            return True
        return Ctl.interp.eq(self, o)

    def __hash__(self):
        h = self.cls.hash_
        if h is not None:
            r = Ctl.interp.call(h, [self], {})
            return hash(r)
        if self.cls.eq_ is not None:
            raise PyExc(TypeError(f"unhashable type: '{self.cls.name}'"))
        if isinstance(self.hv, (str, int, tuple)):
            return hash(self.hv)
        return id(self) >> 4

    def __iter__(self):
        return Ctl.interp.iterate(self)

    def __len__(self):
        return Ctl.interp.call_method(self, "__len__", [])

    def __lt__(self, o):
        return Ctl.interp.truth(Ctl.interp.compare(ast.Lt, self, o))

    def __str__(self):
        return repr(self)


class Func:
    __slots__ = ("node", "name", "qual", "module", "glob", "parent", "defaults", "kwdefaults", "params", "posonly", "vararg", "kwonly",
                 "kwarg", "code", "cls", "isgen", "nloc", "file", "argnames", "simple", "doc", "attrs", "pnames")

    def __repr__(self):
        return f"<function {self.qual}>"

    def __call__(self, *a, **k):
        return Ctl.interp.call(self, list(a), k)


class Bound:
    __slots__ = ("self", "fn")

    def __init__(self, s, fn):
        self.self = s
        self.fn = fn

    def __call__(self, *a, **k):
        return Ctl.interp.call(self.fn, [self.self, *a], k)

    def __eq__(self, o):
        return isinstance(o, Bound) and o.self is self.self and o.fn is self.fn

    def __hash__(self):
        return hash((id(self.self), id(self.fn)))

    def __repr__(self):
        return f"<bound {self.fn}>"


class Native:
    """A modelled function (standard library / runtime)."""

    __slots__ = ("fn", "name", "frame", "state")

    def __init__(self, fn, name=None, frame=False):
        self.fn = fn
        self.state = None  # what the function keeps between calls
        self.name = name or getattr(fn, "__name__", "?")
        self.frame = frame

    def __call__(self, *a, **k):
        return Ctl.interp.call(self, list(a), k)

    def __repr__(self):
        return f"<native {self.name}>"


class Module:
    def __init__(self, name, file=None):
        self.name = name
        self.file = file
        self.ns = {"__name__": name, "__file__": file or name}

    def __repr__(self):
        return f"<module {self.name}>"


class Prop:
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class Static:
    def __init__(self, fn):
        self.fn = fn


class ClsMethod:
    def __init__(self, fn):
        self.fn = fn


class Super:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class EnumAuto:
    pass


class TypingThing:
    """Anything from `typing`: inert."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"typing.{self.name}"


class Frame:
    __slots__ = ("vars", "parent", "glob", "func", "ln", "back", "exc")

    def __init__(self, parent, glob, func):
        self.vars = {}
        self.parent = parent
        self.glob = glob
        self.func = func
        self.ln = 0
        self.back = None
        self.exc = None


class _Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = _Unbound()
BRK = object()
CNT = object()


class Ret:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


MISSING = object()

HOST_OK = (str, int, float, bool, list, dict, tuple, set, frozenset, bytes, type(None), range)

BINOPS = {
    ast.Add: _op.add, ast.Sub: _op.sub, ast.Mult: _op.mul, ast.Div: _op.truediv, ast.FloorDiv: _op.floordiv,
    ast.Mod: _op.mod, ast.Pow: _op.pow, ast.LShift: _op.lshift, ast.RShift: _op.rshift, ast.BitOr: _op.or_,
    ast.BitAnd: _op.and_, ast.BitXor: _op.xor,
}
IOPS = {
    ast.Add: _op.iadd, ast.Sub: _op.isub, ast.Mult: _op.imul, ast.Div: _op.itruediv, ast.FloorDiv: _op.ifloordiv,
    ast.Mod: _op.imod, ast.Pow: _op.ipow, ast.LShift: _op.ilshift, ast.RShift: _op.irshift, ast.BitOr: _op.ior,
    ast.BitAnd: _op.iand, ast.BitXor: _op.ixor,
}
DUNDER = {
    ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__", ast.FloorDiv: "__floordiv__",
    ast.Mod: "__mod__", ast.Pow: "__pow__", ast.LShift: "__lshift__", ast.RShift: "__rshift__", ast.BitOr: "__or__",
    ast.BitAnd: "__and__", ast.BitXor: "__xor__",
}

HOSTTYPES = (int, float, str, bool, list, dict, tuple, set, frozenset, bytes, type, object, type(None))


# ---------------------------------------------------------------------------------------------- scope analysis


def _targets(node, out):
    if isinstance(node, ast.Name):
        out.add(node.id)
    elif isinstance(node, (ast.Tuple, ast.List)):
        for e in node.elts:
            _targets(e, out)
    elif isinstance(node, ast.Starred):
        _targets(node.value, out)


def collect_locals(body, args=None):
    loc = set()
    glob = set()
    nonloc = set()

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                walk_expr(d)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            walk_expr(n)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonloc.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.MatchAs) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            loc.add(n.rest)
        for c in ast.iter_child_nodes(n):
            walk(c)

    def walk_expr(n):
        # named expressions inside comprehensions bind in the enclosing function
        for c in ast.walk(n):
            if isinstance(c, ast.NamedExpr):
                loc.add(c.target.id)

    for s in body:
        walk(s)
    return (loc - glob - nonloc), glob, nonloc


def has_yield(body):
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


class Scope:
    def __init__(self, kind, locs, parent, glob=(), nonloc=()):
        self.kind = kind  # module | class | function
        self.locs = locs
        self.parent = parent
        self.glob = glob
        self.nonloc = nonloc

    def depth_of(self, name):
        """Number of enclosing function frames to go up, or None for global."""
        if name in self.glob:
            return None
        s = self
        d = 0
        first = True
        while s is not None and s.kind != "module":
            if s.kind == "class":
                # class scopes are not visible from nested functions
                s = s.parent
                continue
            if name in s.locs and not (first and name in s.nonloc):
                return d
            d += 1
            first = False
            s = s.parent
        return None


class Compiler:
    """Syntax tree -> transfer functions."""

    def __init__(self, interp, module, file):
        self.I = interp
        self.module = module
        self.file = file
        self.qual = []

    # ---- statements
    def block(self, stmts, sc):
        fs = []
        for s in stmts:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            f = self.stmt(s, sc)
            if f is not None:
                fs.append(f)
        if not fs:
            return lambda fr: None
        if len(fs) == 1:
            return fs[0]
        fs = tuple(fs)

        def run(fr):
            for f in fs:
                r = f(fr)
                if r is not None:
                    return r
            return None

        return run

    def stmt(self, n, sc):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Undecided(f"statement {type(n).__name__} at {self.file}:{n.lineno}")
        f = m(n, sc)
        if f is None:
            return None
        ln = n.lineno
        I = self.I
        lines = I.lines
        key = (self.file, ln)

        def st(fr):
            fr.ln = ln
            I.steps += 1
            if I.steps > I.max_steps:
                if I.pair is None:
                    raise Limit("step limit")
                I.pair.over(fr, key)
            lines.add(key)
            return f(fr)

        return st

    def s_Pass(self, n, sc):
        return lambda fr: None

    def s_Expr(self, n, sc):
        e = self.expr(n.value, sc)

        def f(fr):
            e(fr)

        return f

    def s_Assign(self, n, sc):
        v = self.expr(n.value, sc)
        ts = [self.target(t, sc) for t in n.targets]
        if len(ts) == 1:
            t = ts[0]

            def f(fr):
                t(fr, v(fr))

            return f

        def f2(fr):
            x = v(fr)
            for t in ts:
                t(fr, x)

        return f2

    def s_AnnAssign(self, n, sc):
        if n.value is None:
            return None
        v = self.expr(n.value, sc)
        t = self.target(n.target, sc)

        def f(fr):
            t(fr, v(fr))

        return f

    def s_AugAssign(self, n, sc):
        I = self.I
        op = type(n.op)
        v = self.expr(n.value, sc)
        tg = n.target
        if isinstance(tg, ast.Name):
            ld = self.load(tg.id, sc)
            st = self.store(tg.id, sc)

            def f(fr):
                st(fr, I.iop(op, ld(fr), v(fr)))

            return f
        if isinstance(tg, ast.Attribute):
            o = self.expr(tg.value, sc)
            nm = self.mangle(tg.attr)

            def f(fr):
                ob = o(fr)
                I.setattr(ob, nm, I.iop(op, I.getattr(ob, nm), v(fr)))

            return f
        if isinstance(tg, ast.Subscript):
            o = self.expr(tg.value, sc)
            k = self.expr(tg.slice, sc)

            def f(fr):
                ob = o(fr)
                key = k(fr)
                I.setitem(ob, key, I.iop(op, I.getitem(ob, key), v(fr)))

            return f
        raise Undecided("augmented assignment target")

    def s_Return(self, n, sc):
        if n.value is None:
            r = Ret(None)
            return lambda fr: r
        e = self.expr(n.value, sc)
        return lambda fr: Ret(e(fr))

    def s_Break(self, n, sc):
        return lambda fr: BRK

    def s_Continue(self, n, sc):
        return lambda fr: CNT

    def s_If(self, n, sc):
        c = self.cond(n.test, sc)
        b = self.block(n.body, sc)
        if n.orelse:
            o = self.block(n.orelse, sc)
            return lambda fr: b(fr) if c(fr) else o(fr)
        return lambda fr: b(fr) if c(fr) else None

    def s_While(self, n, sc):
        c = self.cond(n.test, sc)
        b = self.block(n.body, sc)
        o = self.block(n.orelse, sc) if n.orelse else None
        I = self.I

        def f(fr):
            while c(fr):
                I.steps += 1
                if I.steps > I.max_steps and I.pair is None:
                    raise Limit("step limit")
                r = b(fr)
                if r is not None:
                    if r is BRK:
                        return None
                    if r is CNT:
                        continue
                    return r
            if o is not None:
                return o(fr)
            return None

        return f

    def s_For(self, n, sc):
        it = self.expr(n.iter, sc)
        t = self.target(n.target, sc)
        b = self.block(n.body, sc)
        o = self.block(n.orelse, sc) if n.orelse else None
        I = self.I

        def f(fr):
            for x in I.iterate(it(fr)):
                I.steps += 1
                if I.steps > I.max_steps and I.pair is None:
                    raise Limit("step limit")
                t(fr, x)
                r = b(fr)
                if r is not None:
                    if r is BRK:
                        return None
                    if r is CNT:
                        continue
                    return r
            if o is not None:
                return o(fr)
            return None

        return f

    def s_FunctionDef(self, n, sc):
        mk = self.func(n, sc)
        decs = [self.expr(d, sc) for d in n.decorator_list]
        st = self.store(n.name, sc)
        I = self.I

        def f(fr):
            v = mk(fr)
            for d in reversed(decs):
                v = I.decorate(d(fr), v, fr)
            st(fr, v)

        return f

    def s_ClassDef(self, n, sc):
        bases = [self.expr(b, sc) for b in n.bases]
        ckw = [(k.arg, self.expr(k.value, sc)) for k in n.keywords if k.arg]
        csc = Scope("class", set(), sc)
        self.qual.append(n.name)
        loc, glob, _ = collect_locals(n.body)
        csc.locs = loc
        qual = ".".join(self.qual)
        body = self.block(n.body, csc)
        self.qual.pop()
        decs = [self.expr(d, sc) for d in n.decorator_list]
        st = self.store(n.name, sc)
        I = self.I
        name = n.name
        modname = self.module.name

        def f(fr):
            bs = [b(fr) for b in bases]
            cfr = Frame(fr if fr.func is not None else None, fr.glob, fr.func)
            cfr.back = fr
            cfr.vars["__qualname__"] = qual
            body(cfr)
            if any(getattr(b, "is_named_tuple", False) for b in bs):
                fl = [s.target.id for s in n.body if isinstance(s, ast.AnnAssign)]
                ns = cfr.vars
                from .pymodel import named_tuple_class

                v = named_tuple_class(I, name, fl, {k: ns.pop(k) for k in fl if k in ns}, ns, modname, qual)
            else:
                v = I.mkclass(name, bs, cfr.vars, modname, qual)
            v.node = n
            sub = None
            for c in v.mro[1:]:
                if isinstance(c, Cls) and "__init_subclass__" in c.ns:
                    sub = c.ns["__init_subclass__"]
                    break
            if sub is not None:
                I.call(sub.fn if isinstance(sub, ClsMethod) else sub, [v], {k: e(fr) for k, e in ckw if k != "metaclass"})
            for d in reversed(decs):
                v = I.decorate(d(fr), v, fr)
            st(fr, v)

        return f

    def s_Import(self, n, sc):
        I = self.I
        items = []
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            items.append((a.name, a.asname, self.store(nm, sc)))

        def f(fr):
            for name, asname, st in items:
                m = I.import_module(name)
                if asname is None and "." in name:
                    m = I.import_module(name.split(".")[0])
                st(fr, m)

        return f

    def s_ImportFrom(self, n, sc):
        I = self.I
        mod = n.module or ""
        if mod == "__future__":
            return None
        if n.level:
            pk = self.module.name.split(".")
            pk = pk[: len(pk) - n.level + (1 if self.file.endswith("__init__.py") else 0)]
            mod = ".".join(pk + ([mod] if mod else []))
        items = [(a.name, a.asname or a.name, None if a.name == "*" else self.store(a.asname or a.name, sc)) for a in n.names]

        def f(fr):
            m = I.import_module(mod)
            for name, asname, st in items:
                if name == "*":
                    for k, v in I.module_public(m).items():
                        fr.glob[k] = v
                else:
                    st(fr, I.import_from(m, mod, name))

        return f

    def s_Raise(self, n, sc):
        e = self.expr(n.exc, sc) if n.exc else None
        c = self.expr(n.cause, sc) if n.cause else None
        I = self.I

        def f(fr):
            if e is None:
                cur = fr.exc
                if cur is None:
                    raise PyExc(RuntimeError("No active exception to reraise"))
                raise cur
            v = e(fr)
            if isinstance(v, Cls) or (isinstance(v, type) and issubclass(v, BaseException)):
                v = I.call(v, [], {})
            if not I.is_exc(v):
                raise PyExc(TypeError("exceptions must derive from BaseException"))
            x = PyExc(v)
            if c is not None:
                I.exc_set(v, "__cause__", c(fr))
            if fr.exc is not None and fr.exc.value is not v:
                I.exc_set(v, "__context__", fr.exc.value)
            raise x

        return f

    def s_Assert(self, n, sc):
        t = self.cond(n.test, sc)
        m = self.expr(n.msg, sc) if n.msg else None

        def f(fr):
            if not t(fr):
                raise PyExc(AssertionError(*([m(fr)] if m else [])))

        return f

    def s_Global(self, n, sc):
        return None

    s_Nonlocal = s_Global

    def s_Delete(self, n, sc):
        I = self.I
        fs = []
        for t in n.targets:
            if isinstance(t, ast.Name):
                nm = t.id
                d = sc.depth_of(nm)

                def f(fr, nm=nm, d=d):
                    if sc.kind == "module" or d is None:
                        fr.glob.pop(nm, None)
                    else:
                        if nm not in fr.vars:
                            raise PyExc(UnboundLocalError(nm))
                        fr.vars.pop(nm)

                fs.append(f)
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value, sc)
                nm = self.mangle(t.attr)

                def f(fr, o=o, nm=nm):
                    ob = o(fr)
                    if isinstance(ob, Obj) and nm in ob.d:
                        del ob.d[nm]
                    else:
                        raise PyExc(AttributeError(nm))

                fs.append(f)
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value, sc)
                k = self.expr(t.slice, sc)

                def f(fr, o=o, k=k):
                    I.delitem(o(fr), k(fr))

                fs.append(f)
            else:
                raise Undecided("del target")

        def run(fr):
            for f in fs:
                f(fr)

        return run

    def s_Try(self, n, sc):
        I = self.I
        b = self.block(n.body, sc)
        hs = []
        for h in n.handlers:
            t = self.expr(h.type, sc) if h.type else None
            st = self.store(h.name, sc) if h.name else None
            hs.append((t, st, h.name, self.block(h.body, sc)))
        o = self.block(n.orelse, sc) if n.orelse else None
        fin = self.block(n.finalbody, sc) if n.finalbody else None

        def inner(fr):
            try:
                r = b(fr)
            except PyExc as e:
                for t, st, nm, hb in hs:
                    if t is None or I.exc_match(e.value, t(fr)):
                        old = fr.exc
                        fr.exc = e
                        if st:
                            st(fr, e.value)
                        try:
                            return hb(fr)
                        finally:
                            fr.exc = old
                            if nm and nm in fr.vars:
                                fr.vars.pop(nm, None)
                raise
            if r is None and o is not None:
                return o(fr)
            return r

        if fin is None:
            return inner

        def f(fr):
            try:
                r = inner(fr)
            except PyExc as e:
                old = fr.exc
                fr.exc = e
                try:
                    r2 = fin(fr)
                finally:
                    fr.exc = old
                if r2 is not None:
                    return r2
                raise
            r2 = fin(fr)
            return r2 if r2 is not None else r

        return f

    s_TryStar = None

    def s_With(self, n, sc):
        I = self.I
        items = [(self.expr(i.context_expr, sc), self.target(i.optional_vars, sc) if i.optional_vars is not None else None) for i in n.items]
        b = self.block(n.body, sc)

        def run(fr, i):
            if i == len(items):
                return b(fr)
            ce, tg = items[i]
            mgr = ce(fr)
            v = I.enter(mgr)
            if tg is not None:
                tg(fr, v)
            try:
                r = run(fr, i + 1)
            except PyExc as e:
                if I.truth(I.exit(mgr, e)):
                    return None
                raise
            I.exit(mgr, None)
            return r

        return lambda fr: run(fr, 0)

    def s_Match(self, n, sc):
        I = self.I
        subj = self.expr(n.subject, sc)
        cases = [(self.pattern(c.pattern, sc), self.cond(c.guard, sc) if c.guard else None, self.block(c.body, sc)) for c in n.cases]

        def f(fr):
            v = subj(fr)
            for p, g, b in cases:
                if p(fr, v) and (g is None or g(fr)):
                    return b(fr)
            return None

        return f

    def pattern(self, p, sc):
        I = self.I
        if isinstance(p, ast.MatchValue):
            e = self.expr(p.value, sc)
            return lambda fr, v: I.eq(v, e(fr))
        if isinstance(p, ast.MatchSingleton):
            return lambda fr, v: v is p.value
        if isinstance(p, ast.MatchAs):
            sub = self.pattern(p.pattern, sc) if p.pattern else None
            st = self.store(p.name, sc) if p.name else None

            def f(fr, v):
                if sub and not sub(fr, v):
                    return False
                if st:
                    st(fr, v)
                return True

            return f
        if isinstance(p, ast.MatchOr):
            ps = [self.pattern(x, sc) for x in p.patterns]
            return lambda fr, v: any(x(fr, v) for x in ps)
        if isinstance(p, ast.MatchClass):
            c = self.expr(p.cls, sc)
            kws = [(a, self.pattern(x, sc)) for a, x in zip(p.kwd_attrs, p.kwd_patterns)]
            pos = [self.pattern(x, sc) for x in p.patterns]

            def f(fr, v):
                k = c(fr)
                if not I.isinstance(v, k):
                    return False
                if pos:
                    if isinstance(k, type):
                        if len(pos) > 1:
                            raise PyExc(TypeError(f"{k.__name__}() accepts 1 positional sub-pattern"))
                        if not pos[0](fr, v):
                            return False
                    else:
                        ma = k.find("__match_args__") or (k.find("_fields") if isinstance(k.find("_fields"), tuple) else ())
                        if len(ma) < len(pos):
                            raise PyExc(TypeError(f"{k.name}() accepts {len(ma)} positional sub-patterns"))
                        for a, x in zip(ma, pos):
                            if not x(fr, I.getattr(v, a)):
                                return False
                for a, x in kws:
                    if not x(fr, I.getattr(v, a)):
                        return False
                return True

            return f
        if isinstance(p, ast.MatchSequence):
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            ps = [self.pattern(x, sc) for x in p.patterns if not isinstance(x, ast.MatchStar)]
            k = star[0] if star else None
            st = self.store(p.patterns[k].name, sc) if star and p.patterns[k].name else None

            def f(fr, v):
                if type(v) is Obj and isinstance(v.hv, (list, tuple)):
                    v = v.hv
                if not isinstance(v, (list, tuple, collections.deque)):
                    return False
                v = list(v)
                if len(v) < len(ps) or (k is None and len(v) != len(ps)):
                    return False
                if k is None:
                    return all(x(fr, y) for x, y in zip(ps, v))
                r = len(ps) - k
                mid = v[k : len(v) - r]
                rest = v[:k] + v[len(v) - r :]
                if not all(x(fr, y) for x, y in zip(ps, rest)):
                    return False
                if st:
                    st(fr, mid)
                return True

            return f
        if isinstance(p, ast.MatchMapping):
            ks = [(self.expr(a, sc), self.pattern(x, sc)) for a, x in zip(p.keys, p.patterns)]
            rest = self.store(p.rest, sc) if p.rest else None

            def f(fr, v):
                if type(v) is Obj and isinstance(v.hv, dict):
                    v = v.hv
                if not isinstance(v, dict):
                    return False
                seen = []
                for a, x in ks:
                    kk = I.find_key(v, a(fr))
                    if kk is MISSING or not x(fr, v[kk]):
                        return False
                    seen.append(kk)
                if rest:
                    rest(fr, {a: b for a, b in v.items() if not any(a is s for s in seen)})
                return True

            return f
        raise Undecided("match pattern")

    # ---- generator statements (host generators)
    def gblock(self, stmts, sc):
        fs = []
        for s in stmts:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if has_yield([s]):
                fs.append((True, self.gstmt(s, sc)))
            else:
                f = self.stmt(s, sc)
                if f is not None:
                    fs.append((False, f))

        def run(fr):
            for g, f in fs:
                r = (yield from f(fr)) if g else f(fr)
                if r is not None:
                    return r
            return None

        return run

    def gstmt(self, n, sc):
        I = self.I
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Yield):
            e = self.expr(n.value.value, sc) if n.value.value else (lambda fr: None)

            def f(fr):
                yield e(fr)

            return f
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.YieldFrom):
            e = self.expr(n.value.value, sc)

            def f(fr):
                for x in I.iterate(e(fr)):
                    yield x

            return f
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            e = self.expr(n.value.value, sc) if n.value.value else (lambda fr: None)
            ts = [self.target(t, sc) for t in (n.targets if isinstance(n, ast.Assign) else [n.target])]
            frm = isinstance(n.value, ast.YieldFrom)

            def f(fr):
                v = (yield from I.iterate(e(fr))) if frm else (yield e(fr))
                for t in ts:
                    t(fr, v)

            return f
        if isinstance(n, ast.If):
            c = self.cond(n.test, sc)
            b = self.gblock(n.body, sc)
            o = self.gblock(n.orelse, sc)

            def f(fr):
                return (yield from (b(fr) if c(fr) else o(fr)))

            return f
        if isinstance(n, (ast.While, ast.For)):
            b = self.gblock(n.body, sc)
            o = self.gblock(n.orelse, sc)
            if isinstance(n, ast.While):
                c = self.cond(n.test, sc)

                def it(fr):
                    while c(fr):
                        I.steps += 1
                        if I.steps > I.max_steps and I.pair is None:
                            raise Limit("step limit")
                        yield None

                t = lambda fr, v: None
            else:
                e = self.expr(n.iter, sc)
                it = lambda fr: I.iterate(e(fr))
                t = self.target(n.target, sc)

            def f(fr):
                for x in it(fr):
                    t(fr, x)
                    r = yield from b(fr)
                    if r is not None:
                        if r is BRK:
                            return None
                        if r is CNT:
                            continue
                        return r
                return (yield from o(fr))

            return f
        if isinstance(n, ast.Try):
            b = self.gblock(n.body, sc)
            hs = []
            for h in n.handlers:
                hs.append((self.expr(h.type, sc) if h.type else None, self.store(h.name, sc) if h.name else None, self.gblock(h.body, sc)))
            o = self.gblock(n.orelse, sc)
            fin = self.gblock(n.finalbody, sc)

            def f(fr):
                try:
                    try:
                        r = yield from b(fr)
                    except PyExc as e:
                        for t, st, hb in hs:
                            if t is None or I.exc_match(e.value, t(fr)):
                                if st:
                                    st(fr, e.value)
                                r = yield from hb(fr)
                                break
                        else:
                            raise
                    else:
                        if r is None:
                            r = yield from o(fr)
                except PyExc:
                    yield from fin(fr)
                    raise
                r2 = yield from fin(fr)
                return r2 if r2 is not None else r

            return f
        if isinstance(n, ast.With):
            if len(n.items) != 1:
                raise Undecided("multi-with in generator")
            ce = self.expr(n.items[0].context_expr, sc)
            tg = self.target(n.items[0].optional_vars, sc) if n.items[0].optional_vars is not None else None
            b = self.gblock(n.body, sc)

            def f(fr):
                mgr = ce(fr)
                v = I.enter(mgr)
                if tg:
                    tg(fr, v)
                try:
                    r = yield from b(fr)
                except PyExc as e:
                    if I.truth(I.exit(mgr, e)):
                        return None
                    raise
                I.exit(mgr, None)
                return r

            return f
        raise Undecided(f"yield inside {type(n).__name__}")

    # ---- functions
    def func(self, n, sc):
        a = n.args
        I = self.I
        islam = isinstance(n, ast.Lambda)
        body = [ast.Return(value=n.body, lineno=n.lineno, col_offset=0)] if islam else n.body
        loc, glob, nonloc = collect_locals(body)
        names = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        allargs = set(names) | set(kwonly)
        if a.vararg:
            allargs.add(a.vararg.arg)
        if a.kwarg:
            allargs.add(a.kwarg.arg)
        fsc = Scope("function", loc | allargs, sc, glob, nonloc)
        name = "<lambda>" if islam else n.name
        self.qual.append(name)
        qual = ".".join(self.qual)
        isgen = has_yield(body)
        if islam:
            ex = self.expr(n.body, fsc)
            code = lambda fr: Ret(ex(fr))
        else:
            code = self.gblock(body, fsc) if isgen else self.block(body, fsc)
        self.qual.pop()
        defs = [self.expr(d, sc) for d in a.defaults]
        kdefs = [(nm, self.expr(d, sc)) for nm, d in zip(kwonly, a.kw_defaults) if d is not None]
        modname = self.module.name
        file = self.file
        infunc = sc.kind

        def mk(fr):
            f = Func()
            f.node = n
            f.name = name
            f.qual = qual
            f.module = modname
            f.glob = fr.glob
            # enclosing function frame (class bodies are transparent)
            p = fr
            if infunc == "class":
                p = fr.parent
            f.parent = p if (p is not None and p.func is not None) else None
            f.defaults = [d(fr) for d in defs]
            f.kwdefaults = {k: d(fr) for k, d in kdefs}
            f.params = names
            f.kwonly = kwonly
            f.vararg = a.vararg.arg if a.vararg else None
            f.kwarg = a.kwarg.arg if a.kwarg else None
            f.code = code
            f.cls = None
            f.isgen = isgen
            f.file = file
            f.simple = not (f.vararg or f.kwarg or kwonly)
            f.attrs = None
            return f

        return mk

    # ---- targets
    def mangle(self, nm):
        if nm.startswith("__") and not nm.endswith("__"):
            for q in reversed(self.qual):
                if q[:1].isupper() or q[:1] == "_" and q[1:2].isupper():
                    return "_" + q.lstrip("_") + nm
        return nm

    def store(self, name, sc):
        if sc.kind == "module":
            def f(fr, v):
                fr.glob[name] = v
            return f
        if sc.kind == "class":
            def f(fr, v):
                fr.vars[name] = v
            return f
        if name in sc.glob:
            def f(fr, v):
                if Ctl.interp.writes is not None:
                    Ctl.interp.writes("glob", fr.glob, name)
                fr.glob[name] = v
            return f
        if name in sc.nonloc:
            d = sc.depth_of(name)

            def f(fr, v):
                x = fr
                for _ in range(d):
                    x = x.parent
                if Ctl.interp.writes is not None:
                    Ctl.interp.writes("nonlocal", x.vars, name)
                x.vars[name] = v
            return f

        def f(fr, v):
            fr.vars[name] = v
        return f

    def target(self, t, sc):
        I = self.I
        if isinstance(t, ast.Name):
            return self.store(t.id, sc)
        if isinstance(t, ast.Attribute):
            o = self.expr(t.value, sc)
            nm = self.mangle(t.attr)

            def f(fr, v):
                I.setattr(o(fr), nm, v)

            return f
        if isinstance(t, ast.Subscript):
            o = self.expr(t.value, sc)
            k = self.expr(t.slice, sc)

            def f(fr, v):
                I.setitem(o(fr), k(fr), v)

            return f
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            ts = [self.target(e.value if isinstance(e, ast.Starred) else e, sc) for e in t.elts]
            n = len(ts)

            def f(fr, v):
                vs = list(I.iterate(v))
                if star:
                    i = star[0]
                    if len(vs) < n - 1:
                        raise PyExc(ValueError("not enough values to unpack"))
                    k = len(vs) - (n - 1)
                    vs = vs[:i] + [vs[i: i + k]] + vs[i + k:]
                elif len(vs) != n:
                    raise PyExc(ValueError(f"unpack: expected {n}, got {len(vs)}"))
                for tt, x in zip(ts, vs):
                    tt(fr, x)

            return f
        raise Undecided("assignment target")

    # ---- expressions
    def cond(self, n, sc):
        I = self.I
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            c = self.cond(n.operand, sc)
            return lambda fr: not c(fr)
        if isinstance(n, ast.BoolOp):
            cs = [self.cond(v, sc) for v in n.values]
            if isinstance(n.op, ast.And):
                def f(fr):
                    for c in cs:
                        if not c(fr):
                            return False
                    return True
            else:
                def f(fr):
                    for c in cs:
                        if c(fr):
                            return True
                    return False
            return f
        e = self.expr(n, sc)

        def g(fr):
            v = e(fr)
            if v is True or v is False:
                return v
            return I.truth(v)

        return g

    def expr(self, n, sc):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Undecided(f"expression {type(n).__name__} at {self.file}:{n.lineno}")
        return m(n, sc)

    def e_Constant(self, n, sc):
        v = n.value
        return lambda fr: v

    def load(self, name, sc):
        I = self.I
        bi = I.builtins
        if sc.kind == "module":
            def f(fr):
                v = fr.glob.get(name, MISSING)
                if v is MISSING:
                    v = bi.get(name, MISSING)
                    if v is MISSING:
                        raise not_defined(name)
                return v
            return f
        if sc.kind == "class":
            outer = self.load(name, sc.parent)

            def f(fr):
                v = fr.vars.get(name, MISSING)
                if v is not MISSING:
                    return v
                # fr is the class frame; its lexical parent frame
                return outer(fr.parent if fr.parent is not None else fr)
            return f
        d = sc.depth_of(name)
        if d is None:
            def f(fr):
                v = fr.glob.get(name, MISSING)
                if v is MISSING:
                    v = bi.get(name, MISSING)
                    if v is MISSING:
                        raise not_defined(name)
                return v
            return f
        if d == 0:
            def f(fr):
                try:
                    return fr.vars[name]
                except KeyError:
                    raise PyExc(UnboundLocalError(f"cannot access local variable '{name}'")) from None
            return f

        def f(fr):
            x = fr
            for _ in range(d):
                x = x.parent
            try:
                return x.vars[name]
            except KeyError:
                raise PyExc(NameError(f"free variable '{name}'")) from None
        return f

    def e_Name(self, n, sc):
        return self.load(n.id, sc)

    def e_Attribute(self, n, sc):
        o = self.expr(n.value, sc)
        nm = self.mangle(n.attr)
        I = self.I
        ga = I.getattr

        def f(fr):
            ob = o(fr)
            if type(ob) is Obj:
                v = ob.d.get(nm, MISSING)
                if v is not MISSING:
                    return v
            return ga(ob, nm)

        return f

    def e_Subscript(self, n, sc):
        o = self.expr(n.value, sc)
        k = self.expr(n.slice, sc)
        I = self.I
        return lambda fr: I.getitem(o(fr), k(fr))

    def e_Slice(self, n, sc):
        a = self.expr(n.lower, sc) if n.lower else None
        b = self.expr(n.upper, sc) if n.upper else None
        c = self.expr(n.step, sc) if n.step else None
        return lambda fr: slice(a(fr) if a else None, b(fr) if b else None, c(fr) if c else None)

    def e_Tuple(self, n, sc):
        es = self.elts(n.elts, sc)
        return lambda fr: tuple(es(fr))

    def e_List(self, n, sc):
        return self.elts(n.elts, sc)

    def e_Set(self, n, sc):
        es = self.elts(n.elts, sc)
        I = self.I
        return lambda fr: I.mkset(es(fr))

    def elts(self, elts, sc):
        I = self.I
        if any(isinstance(e, ast.Starred) for e in elts):
            es = [(isinstance(e, ast.Starred), self.expr(e.value if isinstance(e, ast.Starred) else e, sc)) for e in elts]

            def f(fr):
                out = []
                for s, e in es:
                    if s:
                        out.extend(I.iterate(e(fr)))
                    else:
                        out.append(e(fr))
                return out

            return f
        es = [self.expr(e, sc) for e in elts]
        return lambda fr: [e(fr) for e in es]

    def e_Dict(self, n, sc):
        I = self.I
        items = [(self.expr(k, sc) if k is not None else None, self.expr(v, sc)) for k, v in zip(n.keys, n.values)]

        def f(fr):
            d = {}
            for k, v in items:
                if k is None:
                    for kk, vv in I.dict_items(v(fr)):
                        I.setitem(d, kk, vv)
                else:
                    I.setitem(d, k(fr), v(fr))
            return d

        return f

    def e_BinOp(self, n, sc):
        a = self.expr(n.left, sc)
        b = self.expr(n.right, sc)
        op = type(n.op)
        I = self.I
        return lambda fr: I.binop(op, a(fr), b(fr))

    def e_UnaryOp(self, n, sc):
        I = self.I
        if isinstance(n.op, ast.Not):
            c = self.cond(n.operand, sc)
            return lambda fr: not c(fr)
        a = self.expr(n.operand, sc)
        if isinstance(n.op, ast.USub):
            return lambda fr: I.native(_op.neg, a(fr))
        if isinstance(n.op, ast.UAdd):
            return lambda fr: I.native(_op.pos, a(fr))
        return lambda fr: I.native(_op.invert, a(fr))

    def e_BoolOp(self, n, sc):
        I = self.I
        es = [self.expr(v, sc) for v in n.values]
        last = es[-1]
        init = es[:-1]
        if isinstance(n.op, ast.And):
            def f(fr):
                for e in init:
                    v = e(fr)
                    if not I.truth(v):
                        return v
                return last(fr)
        else:
            def f(fr):
                for e in init:
                    v = e(fr)
                    if I.truth(v):
                        return v
                return last(fr)
        return f

    def e_Compare(self, n, sc):
        I = self.I
        l = self.expr(n.left, sc)
        ops = [type(o) for o in n.ops]
        cs = [self.expr(c, sc) for c in n.comparators]
        if len(ops) == 1:
            op = ops[0]
            c = cs[0]
            if op is ast.Is:
                return lambda fr: I.is_(l(fr), c(fr))
            if op is ast.IsNot:
                return lambda fr: not I.is_(l(fr), c(fr))
            if op is ast.Eq:
                return lambda fr: I.eq(l(fr), c(fr))
            if op is ast.NotEq:
                return lambda fr: I.ne(l(fr), c(fr))
            if op is ast.In:
                return lambda fr: I.contains(c(fr), l(fr), l=True)
            if op is ast.NotIn:
                return lambda fr: not I.contains(c(fr), l(fr), l=True)
            return lambda fr: I.compare(op, l(fr), c(fr))

        def f(fr):
            a = l(fr)
            for op, c in zip(ops, cs):
                b = c(fr)
                if not I.truth(I.compare(op, a, b)):
                    return False
                a = b
            return True

        return f

    def e_IfExp(self, n, sc):
        c = self.cond(n.test, sc)
        a = self.expr(n.body, sc)
        b = self.expr(n.orelse, sc)
        return lambda fr: a(fr) if c(fr) else b(fr)

    def e_NamedExpr(self, n, sc):
        v = self.expr(n.value, sc)
        s = sc
        up = 0
        while getattr(s, "comp", False):
            s = s.parent
            up += 1
        st = self.store(n.target.id, s)

        def f(fr):
            x = v(fr)
            fr2 = fr
            for _ in range(up):
                fr2 = fr2.parent
            st(fr2, x)
            return x

        return f

    def e_Lambda(self, n, sc):
        return self.func(n, sc)

    def e_Starred(self, n, sc):
        raise Undecided("starred expression")

    def e_JoinedStr(self, n, sc):
        ps = [self.expr(v, sc) for v in n.values]
        I = self.I

        def f(fr):
            out = []
            for p in ps:
                v = p(fr)
                if type(v) is str:
                    out.append(v)
                else:
                    out.extend(parts_of(v))
            return mkstr(out)

        return f

    def e_FormattedValue(self, n, sc):
        e = self.expr(n.value, sc)
        I = self.I
        conv = n.conversion
        spec = self.expr(n.format_spec, sc) if n.format_spec else None

        def f(fr):
            v = e(fr)
            if conv == 114:
                v = I.repr(v)
            elif conv == 115:
                v = I.str(v)
            sp = spec(fr) if spec else ""
            return I.format(v, sp)

        return f

    def e_Call(self, n, sc):
        I = self.I
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            def f(fr):
                x = fr
                while x.func is None or x.func.cls is None or not x.func.params or x.func.params[0] not in x.vars:
                    x = x.parent
                    if x is None:
                        raise Undecided("super() outside of a method")
                return Super(x.func.cls, x.vars[x.func.params[0]])
            return f
        args = n.args
        star = any(isinstance(a, ast.Starred) for a in args)
        kws = [(k.arg, self.expr(k.value, sc)) for k in n.keywords]
        if star:
            ae = self.elts(args, sc)
        else:
            al = [self.expr(a, sc) for a in args]
            ae = lambda fr: [a(fr) for a in al]
        call = I.call

        if isinstance(n.func, ast.Attribute):
            o = self.expr(n.func.value, sc)
            nm = self.mangle(n.func.attr)
            cm = I.call_method_fr

            if not kws:
                def f(fr):
                    return cm(o(fr), nm, ae, None, fr)
            else:
                def f(fr):
                    return cm(o(fr), nm, ae, kws, fr)
            return f
        fn = self.expr(n.func, sc)
        if not kws:
            def f(fr):
                g = fn(fr)
                return call(g, ae(fr), {}, fr)
            return f

        def f(fr):
            g = fn(fr)
            a = ae(fr)
            return call(g, a, I.kw(kws, fr), fr)

        return f

    def comp_scope(self, gens, sc):
        locs = set()
        for g in gens:
            _targets(g.target, locs)
        s = Scope("function", locs, sc)
        s.comp = True
        return s

    def comp(self, n, sc, mkelt):
        I = self.I
        first = self.expr(n.generators[0].iter, sc)
        csc = self.comp_scope(n.generators, sc)
        gens = []
        for i, g in enumerate(n.generators):
            gens.append((None if i == 0 else self.expr(g.iter, csc), self.target(g.target, csc), [self.cond(c, csc) for c in g.ifs]))
        elt = mkelt(csc)
        ng = len(gens)
        skip = sc.kind == "class"

        def loop(fr, i, it):
            _, t, ifs = gens[i]
            for x in I.iterate(it):
                I.steps += 1
                if I.steps > I.max_steps and I.pair is None:
                    raise Limit("step limit")
                t(fr, x)
                for c in ifs:
                    if not c(fr):
                        break
                else:
                    if i + 1 < ng:
                        yield from loop(fr, i + 1, gens[i + 1][0](fr))
                    else:
                        yield elt(fr)

        def run(fr):
            # comprehension inside a class body: lexical parent is the class frame only for the first iterable
            cf = Frame(fr.parent if skip else fr, fr.glob, fr.func)
            cf.ln = fr.ln
            cf.back = fr
            cf.exc = fr.exc
            return loop(cf, 0, first(fr))

        return run

    def e_ListComp(self, n, sc):
        r = self.comp(n, sc, lambda s: self.expr(n.elt, s))
        return lambda fr: list(r(fr))

    def e_SetComp(self, n, sc):
        r = self.comp(n, sc, lambda s: self.expr(n.elt, s))
        I = self.I
        return lambda fr: I.mkset(list(r(fr)))

    def e_GeneratorExp(self, n, sc):
        return self.comp(n, sc, lambda s: self.expr(n.elt, s))

    def e_DictComp(self, n, sc):
        I = self.I

        def mk(s):
            k = self.expr(n.key, s)
            v = self.expr(n.value, s)
            return lambda fr: (k(fr), v(fr))

        r = self.comp(n, sc, mk)

        def f(fr):
            d = {}
            for k, v in r(fr):
                I.setitem(d, k, v)
            return d

        return f

    def e_Yield(self, n, sc):
        raise Undecided("yield expression")
