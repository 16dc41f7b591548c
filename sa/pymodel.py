"""Models of Python builtins and of the library modules the repository uses."""
from __future__ import annotations

import collections
import functools
import io
import itertools
import json as _json
import operator as _operator
import posixpath
import pathlib
import re as _re
import string as _string
import copy as _copy

from .engine import *
from .values import *
from . import engine


def lines(text):
    """Lines of a text file (only \\n ends them)."""
    if isinstance(text, AStr):
        raise Undecided("lines of unknown text")
    out = text.split("\n")
    return [x + "\n" for x in out[:-1]] + ([out[-1]] if out[-1] else [])


class FileStub:
    def __init__(self, I, path, mode, text=""):
        self.I = I
        self.path = path
        self.mode = mode
        self.text = text
        self.pos = 0
        self.buf = []

    def read(self, *a):
        if self.pos:
            return ""
        self.pos = 1
        return self.text

    def readlines(self):
        return lines(self.text)

    def __iter__(self):
        return iter(lines(self.text))

    def write(self, s):
        self.buf.append(s)
        self.I.written[self.path] = mkstr([p for b in self.buf for p in parts_of(b)])
        return 0

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Stream:
    def __init__(self, sink):
        self.sink = sink

    def write(self, s):
        self.sink().append(s)
        return 0

    def flush(self):
        pass


class LockStub:
    again = False
    owner = None

    def __init__(self, I):
        self.I = I
        self.held = 0

    def acquire(self, blocking=True, timeout=-1):
        I = self.I
        while self.held and (self.owner != I.thread or not self.again):
            if not blocking or timeout != -1:
                return False
            if I.pair is None or self.owner == I.thread:
                raise Limit("self-deadlock on a lock")
            I.pair.wait_for_lock()
        self.owner = I.thread
        self.held += 1
        return True

    def release(self):
        if not self.held:
            raise PyExc(RuntimeError("release unlocked lock"))
        self.held -= 1

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()
        return False

    def locked(self):
        return bool(self.held)


JSONS = {}  # the structure behind the text of json.dumps


class JsonText:
    """The text json.dumps produces for a structure holding unknown leaves: kept as the structure itself."""

    def __init__(self, data, opts):
        self.data = data
        self.opts = opts

    def __repr__(self):
        return f"json({self.data!r})"

    def __eq__(self, o):
        if isinstance(o, JsonText):
            return self.opts == o.opts and _struct_eq(self.data, o.data)
        return NotImplemented

    def __hash__(self):
        return 1


def _struct_eq(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(x == y and _struct_eq(a[x], b[y]) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(_struct_eq(x, y) for x, y in zip(a, b))
    if type(a) is bool or type(b) is bool or a is None or b is None:
        return a is b
    return a == b


def json_key(I, k):
    if isinstance(k, str) or isinstance(k, AStr):
        return k
    if k is True:
        return "true"
    if k is False:
        return "false"
    if k is None:
        return "null"
    if isinstance(k, SInt):
        return k.to_str()
    if isinstance(k, int):
        return str(k)
    if isinstance(k, float):
        return repr(k)
    raise PyExc(TypeError(f"keys must be str, int, float, bool or None, not {I.tname(k)}"))


def jsonify(I, v):
    if v is None or isinstance(v, (bool, int, float, str, AStr, SInt)):
        return v
    if isinstance(v, dict):
        d = {}
        for k, x in v.items():
            I.setitem(d, json_key(I, k), jsonify(I, x))
        return d
    if isinstance(v, (list, tuple)):
        return [jsonify(I, x) for x in v]
    if type(v) is Obj and v.hv is not None and not isinstance(v.hv, BaseException):
        return jsonify(I, v.hv)
    raise PyExc(TypeError(f"Object of type {I.tname(v)} is not JSON serializable"))


def _concrete(v):
    if isinstance(v, (AStr, SInt)):
        return False
    if isinstance(v, dict):
        return all(_concrete(k) and _concrete(x) for k, x in v.items())
    if isinstance(v, list):
        return all(_concrete(x) for x in v)
    return True


def json_dumps(I, v, *a, **k):
    k = {x: y for x, y in k.items()}
    opts = tuple(sorted((x, repr(y)) for x, y in k.items()))
    if k.get("default") is not None or k.get("cls") is not None:
        raise Undecided("json default/cls")
    d = jsonify(I, v)
    if _concrete(d):
        return I.native(_json.dumps, d, *a, **k)
    if k.get("sort_keys"):
        raise Undecided("sort_keys over unknown keys")
    t = JsonText(d, opts)
    nm = f"json{opts}:{d!r}"
    JSONS[nm] = t
    return AStr((Atom(nm, "json", False),))


def json_loads(I, t, *a, **k):
    if isinstance(t, AStr):
        a = [p for p in t.parts if not (isinstance(p, str) and not p.strip(" \t\r\n"))]
        if len(a) == 1 and isinstance(a[0], Atom) and a[0].name in JSONS:
            return _copy_struct(JSONS[a[0].name].data)
        raise Undecided("json.loads of unknown text")
    if not isinstance(t, (str, bytes)):
        raise PyExc(TypeError("the JSON object must be str, bytes or bytearray"))
    return I.native(_json.loads, t)


def _copy_struct(v):
    if isinstance(v, dict):
        return {k: _copy_struct(x) for k, x in v.items()}
    if isinstance(v, list):
        return [_copy_struct(x) for x in v]
    return v


def deepcopy(I, v, memo=None):
    if memo is None:
        memo = {}
    t = type(v)
    if v is None or t in (int, str, float, bool, bytes, AStr, SInt, Func, Native, Cls, Module, range) or isinstance(v, type):
        return v
    if id(v) in memo:
        return memo[id(v)][0]
    if t is list:
        r = []
        memo[id(v)] = (r, v)
        for x in v:
            r.append(deepcopy(I, x, memo))
        return r
    if t is tuple:
        r = tuple(deepcopy(I, x, memo) for x in v)
        memo[id(v)] = (r, v)
        return r
    if t is dict:
        r = {}
        memo[id(v)] = (r, v)
        for k, x in v.items():
            r[deepcopy(I, k, memo)] = deepcopy(I, x, memo)
        return r
    if t is set:
        r = {deepcopy(I, x, memo) for x in v}
        memo[id(v)] = (r, v)
        return r
    if t is Obj:
        if v.cls.is_enum:
            return v
        m = v.cls.find("__deepcopy__")
        if m is not None:
            r = I.call(m, [v, {}], {})
            memo[id(v)] = (r, v)
            return r
        r = Obj(v.cls)
        memo[id(v)] = (r, v)
        for k, x in v.d.items():
            r.d[k] = deepcopy(I, x, memo)
        if v.hv is not None:
            r.hv = deepcopy(I, v.hv, memo)
        return r
    if t is Bound:
        return Bound(deepcopy(I, v.self, memo), v.fn)
    if t is collections.deque:
        return collections.deque(deepcopy(I, x, memo) for x in v)
    raise Undecided(f"deepcopy of {t.__name__}")


def shallow(I, v):
    t = type(v)
    if t in (list, dict, set, collections.deque):
        return t(v)
    if t is Obj:
        m = v.cls.find("__copy__")
        if m is not None:
            return I.call(m, [v], {})
        if v.cls.is_enum:
            return v
        r = Obj(v.cls)
        r.d.update(v.d)
        r.hv = v.hv
        return r
    return v


def to_int(I, *a, **k):
    if not a:
        return 0
    v = a[0]
    base = a[1] if len(a) > 1 else k.get("base", None)
    if type(v) is Obj:
        for nm in ("__int__", "__index__"):
            m = v.cls.find(nm)
            if m is not None:
                return I.call(m, [v], {})
        if v.hv is not None:
            return to_int(I, v.hv)
        raise TypeError("int() argument must be a string, a bytes-like object or a real number")
    if isinstance(v, SInt):
        if base is not None:
            raise TypeError("int() can't convert non-string with explicit base")
        return v
    if isinstance(v, AStr):
        if len(v.parts) == 1 and isinstance(v.parts[0], Atom):
            p = v.parts[0]
            if p.kind in ("dec", "pdec"):
                if base not in (None, 10, 0):
                    raise Undecided("int() with base")
                return LINEAR[p.name] if p.name in LINEAR else SInt.var(p.name)
            if p.kind in ("name", "var"):
                raise ValueError(f"invalid literal for int(): {v!r}")
        if all(isinstance(p, str) or p.kind in ("name", "var") for p in v.parts):
            raise ValueError(f"invalid literal for int(): {v!r}")
        if len(v.parts) == 2 and v.parts[0] == "-" and v.parts[1].kind == "pdec":
            return -SInt.var(v.parts[1].name)
        raise Undecided("int() of unknown text")
    if base is not None:
        return int(v, base)
    return int(v)


def to_float(I, *a):
    if not a:
        return 0.0
    if isinstance(a[0], (AStr, SInt)):
        raise Undecided("float() of unknown")
    if type(a[0]) is Obj:
        m = a[0].cls.find("__float__")
        if m is not None:
            return I.call(m, [a[0]], {})
        raise TypeError("float()")
    return float(a[0])


def str_format(I, s, *args, **kw):
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        name = field
        m = _re.match(r"([^.\[]*)(.*)", name)
        head, rest = m.group(1), m.group(2)
        if head == "":
            v = args[auto]
            auto += 1
        elif head.isdigit():
            v = args[int(head)]
        else:
            v = kw[head]
        for am in _re.finditer(r"\.([A-Za-z_0-9]+)|\[([^\]]+)\]", rest):
            if am.group(1):
                v = I.getattr(v, am.group(1))
            else:
                k = am.group(2)
                v = I.getitem(v, int(k) if k.isdigit() else k)
        if conv == "r":
            v = I.repr(v)
        elif conv == "s":
            v = I.str(v)
        out.extend(parts_of(I.format(v, spec or "")))
    return mkstr(out)


def _guard(name):
    hm = getattr(str, name)

    def f(I, s, *a, **k):
        for x in a:
            if isinstance(x, (AStr, SInt)):
                raise Undecided(f"str.{name} with an unknown argument")
        return hm(s, *a, **k)

    return f


def str_methods():
    m = {}
    for n in dir(str):
        if not n.startswith("__") and callable(getattr(str, n)):
            m[n] = _guard(n)

    def join(I, s, it):
        xs = list(I.iterate(it))
        out = []
        for i, x in enumerate(xs):
            if not isinstance(x, (str, AStr)):
                if type(x) is Obj and isinstance(x.hv, str):
                    x = x.hv
                else:
                    raise TypeError(f"sequence item {i}: expected str instance, {I.tname(x)} found")
            if i:
                out.append(s)
            out.extend(parts_of(x))
        return mkstr(out)

    def startswith(I, s, p, *a):
        if isinstance(p, AStr):
            if isinstance(p.parts[0], str):
                if not s.startswith(p.parts[0]):
                    return False
                raise Undecided("startswith")
            if p.parts[0].generic:
                return False
            raise Undecided("startswith")
        return s.startswith(p, *a)

    def replace(I, s, a, b, *n):
        if isinstance(a, AStr):
            if a.parts and AStr((s,)).parts and not I.contains(s, a) if s else True:
                return s
            raise Undecided("replace")
        if isinstance(b, AStr):
            q = s.split(a)
            out = []
            for i, x in enumerate(q):
                if i:
                    out.extend(b.parts)
                out.append(x)
            return mkstr(out)
        return s.replace(a, b, *n)

    def translate(I, s, t):
        return s.translate(t)

    m["join"] = join
    m["startswith"] = startswith
    m["replace"] = replace
    m["format"] = str_format
    m["format_map"] = lambda I, s, d: str_format(I, s, **d)
    m["__len__"] = lambda I, s: len(s)
    m["__eq__"] = lambda I, s, o: I.eq(s, o)
    m["__str__"] = lambda I, s: s
    m["__contains__"] = lambda I, s, o: I.contains(s, o)
    return m


def _proc(I, what):
    """State of the whole process."""
    if I.writes is not None:
        I.writes("process", None, what)


def _mut(I, o, k=None):
    if I.writes is not None:
        I.writes("item", o, k)


def list_methods():
    def append(I, s, x):
        _mut(I, s)
        s.append(x)

    def extend(I, s, it):
        _mut(I, s)
        s.extend(list(I.iterate(it)))

    def insert(I, s, i, x):
        _mut(I, s)
        s.insert(i, x)

    def pop(I, s, *a):
        _mut(I, s)
        return s.pop(*a)

    def idx(I, s, x, *a):
        rng = range(*slice(*(list(a) + [None] * (2 - len(a))) if a else (None, None)).indices(len(s)))
        for i in rng:
            if s[i] is x or I.truth(I.eq(s[i], x)):
                return i
        raise ValueError(f"{x!r} is not in list")

    def index(I, s, x, start=0, stop=None):
        n = len(s) if stop is None else stop
        for i in range(start, min(n, len(s))):
            if s[i] is x or I.truth(I.eq(s[i], x)):
                return i
        raise ValueError("is not in list")

    def remove(I, s, x):
        _mut(I, s)
        del s[index(I, s, x)]

    def count(I, s, x):
        return sum(1 for y in s if y is x or I.truth(I.eq(y, x)))

    def sort(I, s, key=None, reverse=False):
        _mut(I, s)
        s.sort(key=_key(I, key), reverse=I.truth(reverse))

    def reverse(I, s):
        _mut(I, s)
        s.reverse()

    def clear(I, s):
        _mut(I, s)
        s.clear()

    def copy(I, s):
        return list(s)

    return dict(append=append, extend=extend, insert=insert, pop=pop, index=index, remove=remove, count=count, sort=sort,
                reverse=reverse, clear=clear, copy=copy,
                __len__=lambda I, s: len(s), __iter__=lambda I, s: I.iterate(s), __contains__=lambda I, s, x: I.contains(s, x),
                __getitem__=lambda I, s, k: I.getitem(s, k), __setitem__=lambda I, s, k, v: I.setitem(s, k, v),
                __add__=lambda I, s, o: s + o, __eq__=lambda I, s, o: I.eq(s, o))


class _KeyWrap:
    """Ordering of values with interpreted comparison."""

    __slots__ = ("I", "v")

    def __init__(self, I, v):
        self.I = I
        self.v = v

    def __lt__(self, o):
        return self.I.truth(self.I.compare(ast.Lt, self.v, o.v))


import ast  # noqa: E402


def _key(I, key):
    if key is None:
        return lambda x: _KeyWrap(I, x)
    return lambda x: _KeyWrap(I, I.call(key, [x], {}))


class OKey:
    pass


def dict_methods():
    def get(I, d, k, default=None):
        kk = I.find_key(d, k)
        return default if kk is MISSING else d[kk]

    def setdefault(I, d, k, default=None):
        kk = I.find_key(d, k)
        if kk is MISSING:
            _mut(I, d, k)
            d[k] = default
            return default
        return d[kk]

    def pop(I, d, k, *a):
        kk = I.find_key(d, k)
        if kk is MISSING:
            if a:
                return a[0]
            raise KeyError(k)
        _mut(I, d, k)
        return d.pop(kk)

    def update(I, d, *a, **kw):
        if a:
            src = a[0]
            items = I.dict_items(src) if isinstance(src, dict) or (type(src) is Obj and isinstance(src.hv, dict)) else [tuple(I.iterate(x)) for x in I.iterate(src)]
            for k, v in items:
                I.setitem(d, k, v)
        for k, v in kw.items():
            I.setitem(d, k, v)

    def clear(I, d):
        _mut(I, d)
        d.clear()

    def popitem(I, d, last=True):
        _mut(I, d)
        if not last and d:
            k = next(iter(d))
            return k, d.pop(k)
        return d.popitem()

    def move_to_end(I, d, k, last=True):
        kk = I.find_key(d, k)
        if kk is MISSING:
            raise PyExc(KeyError(k))
        _mut(I, d)
        v = d.pop(kk)
        if last:
            d[kk] = v
        else:
            old = dict(d)
            d.clear()
            d[kk] = v
            d.update(old)

    return dict(get=get, setdefault=setdefault, pop=pop, update=update, clear=clear, popitem=popitem, move_to_end=move_to_end,
                items=lambda I, d: DictView(I, d, 2), keys=lambda I, d: DictView(I, d, 0), values=lambda I, d: DictView(I, d, 1),
                copy=lambda I, d: dict(d), __len__=lambda I, d: len(d), __contains__=lambda I, d, k: I.find_key(d, k) is not MISSING,
                __getitem__=lambda I, d, k: I.getitem(d, k), __setitem__=lambda I, d, k, v: I.setitem(d, k, v), __iter__=lambda I, d: I.iterate(d),
                __eq__=lambda I, s, o: I.eq(s, o))


class DictView:
    def __init__(self, I, d, w):
        self.I = I
        self.d = d
        self.w = w

    def __iter__(self):
        d = self.d
        n = len(d)
        for k in list(d):
            if len(d) != n:
                raise PyExc(RuntimeError("dictionary changed size during iteration"))
            if self.w == 0:
                yield k
            elif self.w == 1:
                yield d[k]
            else:
                yield (k, d[k])
        if len(d) != n:
            raise PyExc(RuntimeError("dictionary changed size during iteration"))

    def __len__(self):
        return len(self.d)

    def __contains__(self, x):
        if self.w == 0:
            return self.I.find_key(self.d, x) is not MISSING
        return any(self.I.truth(self.I.eq(x, y)) for y in self)

    def __reversed__(self):
        return reversed(list(self))

    def _s(self):
        return set(self)

    def __sub__(self, o):
        return self.I.setop(ast.Sub, self._s(), set(o))

    def __and__(self, o):
        return self.I.setop(ast.BitAnd, self._s(), set(o))

    def __or__(self, o):
        return self.I.setop(ast.BitOr, self._s(), set(o))

    def __eq__(self, o):
        return isinstance(o, (DictView, set)) and self._s() == set(o)

    __hash__ = None


def set_methods():
    def add(I, s, x):
        _mut(I, s)
        I.set_add(s, x)

    def update(I, s, *its):
        _mut(I, s)
        for it in its:
            for x in list(I.iterate(it)):
                I.set_add(s, x)

    def remove(I, s, x):
        k = I.find_key(s, x)
        if k is MISSING:
            raise KeyError(x)
        _mut(I, s)
        s.remove(k)

    def discard(I, s, x):
        k = I.find_key(s, x)
        if k is not MISSING:
            _mut(I, s)
            s.remove(k)

    def pop(I, s):
        _mut(I, s)
        if not s:
            raise KeyError("pop from an empty set")
        x = I.ordered(s)[0] if I.set_order is not None else next(iter(s))
        s.remove(x)
        return x

    def mk(op):
        def f(I, s, *its):
            r = set(s)
            for it in its:
                r = I.setop(op, r, I.mkset(list(I.iterate(it))))
            return r
        return f

    def inter_update(I, s, *its):
        _mut(I, s)
        r = mk(ast.BitAnd)(I, s, *its)
        s.clear()
        s.update(r)

    def diff_update(I, s, *its):
        _mut(I, s)
        r = mk(ast.Sub)(I, s, *its)
        s.clear()
        s.update(r)

    def clear(I, s):
        _mut(I, s)
        s.clear()

    return dict(add=add, update=update, remove=remove, discard=discard, pop=pop, clear=clear, copy=lambda I, s: set(s),
                union=mk(ast.BitOr), intersection=mk(ast.BitAnd), difference=mk(ast.Sub), intersection_update=inter_update,
                difference_update=diff_update,
                issubset=lambda I, s, o: all(I.contains(o, x) for x in s), issuperset=lambda I, s, o: all(I.find_key(s, x) is not MISSING for x in I.iterate(o)),
                isdisjoint=lambda I, s, o: not any(I.find_key(s, x) is not MISSING for x in I.iterate(o)),
                symmetric_difference=lambda I, s, o: s ^ set(I.iterate(o)),
                __len__=lambda I, s: len(s), __contains__=lambda I, s, x: I.find_key(s, x) is not MISSING, __iter__=lambda I, s: I.iterate(s))


class Namespace:
    pass


def install(I):
    B = I.builtins
    I.pymethods = {str: str_methods(), list: list_methods(), dict: dict_methods(), set: set_methods(), frozenset: set_methods()}
    I.host_attrs = {}
    I.host_str = set()
    I.type_attrs = {}
    I.written = {}
    I.argv = []
    I.fs = {}
    I.cwd = "/v"
    I.typed_dict_base = Cls("TypedDict", [], {})
    I.typed_dict_base.td = True

    def native(name, fn, frame=False):
        B[name] = Native(fn, name, frame)

    for n, e in HOSTEXC.items():
        B[n] = e
    B["NotImplemented"] = NotImplemented
    B["Ellipsis"] = Ellipsis
    B["__name__"] = "builtins"
    for t in (int, str, float, bool, list, dict, tuple, set, frozenset, object, type, bytes, range):
        B[t.__name__] = t

    def ln(x):
        if isinstance(x, AStr):
            return x.alen()
        if type(x) is Obj:
            m = x.cls.find("__len__")
            if m is not None:
                return I.call(m, [x], {})
            if x.hv is not None and not isinstance(x.hv, BaseException):
                return len(x.hv)
            raise TypeError(f"object of type '{x.cls.name}' has no len()")
        if isinstance(x, (SInt,)):
            raise TypeError("object of type 'int' has no len()")
        if type(x) is Cls and x.is_enum:
            return len(x.members)
        return len(x)

    native("len", ln)

    def _print(*a, sep=" ", end="\n", file=None, flush=False):
        parts = []
        for i, x in enumerate(a):
            if i:
                parts.append(sep)
            parts.extend(parts_of(I.str(x)))
        parts.append(end)
        if file is None:
            I.out.append(mkstr(parts))
        else:
            I.call(I.getattr(file, "write"), [mkstr(parts)], {})

    native("print", _print)
    native("isinstance", lambda v, c: I.isinstance(v, c))
    native("issubclass", lambda a, b: I.issubclass(a, b))
    native("callable", lambda v: isinstance(v, (Func, Bound, Native, Cls, type)) or (type(v) is Obj and v.cls.find("__call__") is not None))
    native("repr", lambda v: I.repr(v))
    native("ascii", lambda v: I.repr(v))
    native("format", lambda v, s="": I.format(v, s))
    native("id", lambda v: id(v) if I.ids is None else I.ids(v))
    native("hash", lambda v: hash(v))
    native("abs", lambda v: abs(v) if not isinstance(v, SInt) else (v if not I.truth(v < 0) else -v))
    native("round", lambda v, *a: round(v, *a) if not isinstance(v, SInt) else v)
    native("chr", chr)
    native("ord", lambda s: _ord(s))

    def _ord(s):
        if isinstance(s, AStr):
            raise Undecided("ord")
        return ord(s)

    native("hex", lambda v: _fmtint(hex, v))
    native("bin", lambda v: _fmtint(bin, v))
    native("oct", lambda v: _fmtint(oct, v))

    def _fmtint(fn, v):
        if isinstance(v, SInt):
            raise Undecided("hex of unknown")
        return fn(v)

    native("divmod", lambda a, b: (I.binop(ast.FloorDiv, a, b), I.binop(ast.Mod, a, b)))
    native("pow", lambda *a: pow(*a))
    native("sum", lambda it, start=0: _sum(it, start))

    def _sum(it, start):
        r = start
        for x in I.iterate(it):
            r = I.binop(ast.Add, r, x)
        return r

    native("any", lambda it: any(I.truth(x) for x in I.iterate(it)))
    native("all", lambda it: all(I.truth(x) for x in I.iterate(it)))
    native("iter", lambda it, *a: _iter(it))
    native("enumerate", lambda it, start=0: enumerate(I.iterate(it), start))
    native("zip", lambda *its, strict=False: zip(*[I.iterate(x) for x in its]))
    native("map", lambda f, *its: (I.call(f, list(xs), {}) for xs in zip(*[I.iterate(x) for x in its])))
    native("filter", lambda f, it: (x for x in I.iterate(it) if I.truth(x if f is None else I.call(f, [x], {}))))
    native("reversed", lambda it: _rev(it))

    def _iter(it):
        r = I.iterate(it)
        return iter(r)

    def _rev(it):
        if type(it) is Obj:
            m = it.cls.find("__reversed__")
            if m is not None:
                return I.call(m, [it], {})
            if it.hv is not None:
                return reversed(it.hv)
        if isinstance(it, (list, tuple, str, range, dict, DictView, collections.deque)):
            return reversed(it) if not isinstance(it, list) else reversed(it)
        raise TypeError("object is not reversible")

    def _next(it, *d):
        if type(it) is Obj:
            try:
                return I.call_method(it, "__next__", [])
            except PyExc as e:
                if d and isinstance(e.value, StopIteration):
                    return d[0]
                raise
        if not hasattr(it, "__next__"):
            raise TypeError(f"'{I.tname(it)}' object is not an iterator")
        try:
            return next(it)
        except StopIteration:
            if d:
                return d[0]
            raise PyExc(StopIteration()) from None

    native("next", _next)
    native("sorted", lambda it, key=None, reverse=False: sorted(list(I.iterate(it)), key=_key(I, key), reverse=I.truth(reverse)))

    def _minmax(which):
        def f(*a, key=None, default=MISSING):
            xs = list(I.iterate(a[0])) if len(a) == 1 else list(a)
            if not xs:
                if default is not MISSING:
                    return default
                raise ValueError("min()/max() iterable argument is empty")
            best = xs[0]
            bk = I.call(key, [best], {}) if key is not None else best
            for x in xs[1:]:
                k = I.call(key, [x], {}) if key is not None else x
                if I.truth(I.compare(ast.Lt if which == "min" else ast.Gt, k, bk)):
                    best, bk = x, k
            return best
        return f

    native("min", _minmax("min"))
    native("max", _minmax("max"))

    def _getattr(o, n, *d):
        if isinstance(n, AStr):
            raise Undecided("getattr by unknown name")
        try:
            return I.getattr(o, n)
        except PyExc as e:
            if d and I.exc_match(e.value, AttributeError):
                return d[0]
            raise

    native("getattr", _getattr)
    native("setattr", lambda o, n, v: I.setattr(o, n, v))

    def _delattr(o, n):
        if type(o) is Obj and n in o.d:
            del o.d[n]
        else:
            raise AttributeError(n)

    native("delattr", _delattr)

    def _hasattr(o, n):
        try:
            I.getattr(o, n)
            return True
        except PyExc as e:
            if I.exc_match(e.value, AttributeError):
                return False
            raise

    native("hasattr", _hasattr)

    def _vars(o):
        if type(o) is Obj:
            return o.d
        if isinstance(o, (Module, Cls)):
            return o.ns
        raise TypeError("vars() argument must have __dict__ attribute")

    native("vars", _vars)

    def _dir(o):
        if type(o) is Obj:
            s = set(o.d)
            for c in o.cls.mro:
                if isinstance(c, Cls):
                    s |= set(c.ns)
            return sorted(s)
        if isinstance(o, (Module, Cls)):
            return sorted(o.ns)
        raise Undecided("dir")

    native("dir", _dir)
    native("globals", lambda fr: fr.glob, True)
    native("locals", lambda fr: I.frame_locals(fr), True)
    native("slice", lambda *a: slice(*a))
    native("property", lambda fget=None, fset=None, *a, **k: _prop(fget, fset))

    def _prop(fget, fset):
        p = Prop(fget, fset)
        return p

    I.host_attrs[Prop] = {"setter", "getter", "fget", "fset"}
    Prop.setter = lambda self, f: Prop(self.fget, f)
    Prop.getter = lambda self, f: Prop(f, self.fset)
    native("staticmethod", lambda f: Static(f))
    native("classmethod", lambda f: ClsMethod(f))
    native("super", lambda *a: Super(a[0], a[1]))
    native("open", lambda *a, **k: _open(*a, **k))

    def _open(path, mode="r", *a, encoding=None, **k):
        if isinstance(path, pathlib.PurePath):
            path = str(path)
        if type(path) is Obj or not isinstance(path, str):
            raise Undecided("open of unknown path")
        p = posixpath.normpath(posixpath.join(I.cwd, path))
        if "r" in mode:
            if p in I.fs:
                t = I.fs[p]
                if t is IsADir:
                    raise IsADirectoryError(21, "Is a directory", path)
                if k.get("newline") is None and len(a) < 4 and "b" not in mode and (isinstance(t, str) and "\r" in t or isinstance(t, AStr) and any(isinstance(x, str) and "\r" in x for x in t.parts)):  # line ends are translated
                    t = t.replace("\r\n", "\n").replace("\r", "\n")
                return FileStub(I, p, mode, t)
            if any(x.startswith(p + "/") for x in I.fs):
                raise IsADirectoryError(21, "Is a directory", path)
            raise FileNotFoundError(2, "No such file or directory", path)
        I.written[p] = ""
        return FileStub(I, p, mode)

    I.host_attrs[FileStub] = {"read", "write", "close", "readlines", "flush"}
    I.host_attrs[LockStub] = {"acquire", "release", "locked"}

    def _exit(code=None):
        raise PyExc(SystemExit(code) if code is not None else SystemExit())

    native("exit", _exit)
    native("quit", _exit)

    def _eval(fr, src, glob=None, loc=None):
        if isinstance(src, AStr):
            raise Undecided("eval of unknown text")
        try:
            tree = ast.parse(src, mode="eval")
        except SyntaxError as e:
            raise PyExc(SyntaxError(str(e.msg)))
        m = Module("<eval>", "<eval>")
        c = Compiler(I, m, "<eval>")
        sc = engine.Scope("module", set(), None)
        code = c.expr(tree.body, sc)
        ns = {}
        g = glob if glob is not None else fr.glob
        l = loc if loc is not None else (g if glob is not None else I.frame_locals(fr))
        ns.update(g)
        ns.update(l)
        f2 = Frame(None, ns, None)
        f2.back = fr
        return code(f2)

    native("eval", _eval, True)

    def _import(name, *a, **k):
        return I.import_module(name)

    native("__import__", _import)
    native("input", lambda *a: (_ for _ in ()).throw(Undecided("input")))

    # --- constructors
    def mklist(it=()):
        return list(I.iterate(it)) if it != () or not isinstance(it, tuple) else []

    def mktuple(it=()):
        return tuple(I.iterate(it)) if not (isinstance(it, tuple)) else it

    def mkdict(*a, **k):
        d = {}
        I.pymethods[dict]["update"](I, d, *a, **k)
        return d

    def mkstr_(*a, **k):
        if not a:
            return ""
        if len(a) > 1:
            raise Undecided("str(bytes, enc)")
        return I.str(a[0])

    def mktype(*a):
        if len(a) == 1:
            return I.type_of(a[0])
        return I.mkclass(a[0], list(a[1]), dict(a[2]), "?", a[0])

    def mkset(it=()):
        return I.mkset(list(I.iterate(it)))

    I.type_ctor = {
        int: lambda *a, **k: to_int(I, *a, **k), str: mkstr_, float: lambda *a: to_float(I, *a), bool: lambda *a: I.truth(a[0]) if a else False,
        list: mklist, tuple: mktuple, dict: mkdict, set: mkset, frozenset: lambda it=(): frozenset(mkset(it)), object: lambda: Obj(I.object_cls),
        type: mktype, bytes: lambda *a: bytes(*a), range: lambda *a: _range(*a),
        collections.deque: lambda it=(), maxlen=None: collections.deque(I.iterate(it), maxlen),
        collections.OrderedDict: mkdict,
    }

    def _range(*a):
        if any(isinstance(x, SInt) for x in a):
            raise Undecided("range over unknown")
        return range(*a)

    I.object_cls = Cls("object", [], {})
    I.type_attrs[(dict, "fromkeys")] = Native(lambda it, v=None: {k: v for k in I.iterate(it)})
    I.type_attrs[(str, "maketrans")] = Native(str.maketrans)
    I.type_attrs[(str, "join")] = Native(lambda s, it: I.pymethods[str]["join"](I, s, it))
    I.type_attrs[(int, "from_bytes")] = Native(int.from_bytes)
    I.pymethods[collections.deque] = {
        "append": lambda I, s, x: s.append(x), "appendleft": lambda I, s, x: s.appendleft(x), "pop": lambda I, s: s.pop(),
        "popleft": lambda I, s: s.popleft(), "extend": lambda I, s, it: s.extend(list(I.iterate(it))), "clear": lambda I, s: s.clear(),
        "copy": lambda I, s: s.copy(), "extendleft": lambda I, s, it: s.extendleft(list(I.iterate(it))), "rotate": lambda I, s, n=1: s.rotate(n),
    }
    I.pymethods[tuple] = {"index": list_methods()["index"], "count": list_methods()["count"], "__len__": lambda I, s: len(s)}

    # --- modules
    N = I.native_modules

    def typing_mod(I):
        ns = {n: TypingThing(n) for n in ("Any", "Union", "Optional", "List", "Dict", "Set", "Tuple", "Callable", "Iterable", "Iterator", "Generator",
                                          "Mapping", "MutableMapping", "Sequence", "MutableSequence", "Type", "ClassVar", "Final", "Literal", "TypeAlias", "NotRequired", "Required",
                                          "NoReturn", "IO", "TextIO", "BinaryIO", "AnyStr", "SupportsInt", "SupportsIndex", "Deque", "FrozenSet", "Collection", "Hashable", "Protocol", "Generic", "Annotated", "Self", "Never", "Counter", "DefaultDict", "Pattern", "Match", "Sized", "Reversible", "Container", "Awaitable", "Text")}
        ns["TYPE_CHECKING"] = False
        ns["cast"] = Native(lambda t, v: v, "cast")
        ns["TypeVar"] = Native(lambda *a, **k: TypingThing(a[0]))
        ns["NewType"] = Native(lambda n, t: Native(lambda v: v))
        ns["TypedDict"] = I.typed_dict_base
        ns["overload"] = Native(lambda f: f)
        ns["final"] = Native(lambda f: f)
        ns["override"] = Native(lambda f: f)
        ns["runtime_checkable"] = Native(lambda f: f)
        ns["no_type_check"] = Native(lambda f: f)
        ns["assert_never"] = Native(lambda v: (_ for _ in ()).throw(PyExc(AssertionError(v))))

        nt = Cls("NamedTuple", [], {})
        nt.is_named_tuple = True
        nt.functional = lambda name, fields=(): named_tuple_class(I, name, [f for f, _t in fields], {})
        ns["NamedTuple"] = nt
        return ns

    N["typing"] = typing_mod
    N["typing_extensions"] = typing_mod
    N["typing.io"] = typing_mod
    N["collections.abc"] = typing_mod

    def abc_mod(I):
        c = Cls("ABC", [], {})
        return {"ABC": c, "ABCMeta": TypingThing("ABCMeta"), "abstractmethod": Native(lambda f: f), "abstractproperty": Native(lambda f: Prop(f))}

    N["abc"] = abc_mod

    def enum_mod(I):
        e = Cls("Enum", [], {})
        e.is_enum = True
        ie = Cls("IntEnum", [e, int], {})
        ie.is_enum = True
        se = Cls("StrEnum", [e, str], {"__str__": Native(lambda self: self.d["value"])})
        se.is_enum = True
        return {"Enum": e, "IntEnum": ie, "StrEnum": se, "auto": Native(lambda: EnumAuto()), "unique": Native(lambda c: c)}

    N["enum"] = enum_mod

    def logging_mod(I):
        lg = Module("logger")
        nop = Native(lambda *a, **k: None)
        for n in ("debug", "info", "warning", "warn", "error", "exception", "critical", "log", "setLevel", "addHandler"):
            lg.ns[n] = nop
        lg.ns["isEnabledFor"] = Native(lambda *a: False)
        lg.ns["getChild"] = Native(lambda *a: lg)
        d = {"getLogger": Native(lambda *a: lg), "DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50, "Logger": TypingThing("Logger"),
             "basicConfig": nop, "debug": nop, "info": nop, "warning": nop, "error": nop, "exception": nop}
        return d

    N["logging"] = logging_mod
    N["warnings"] = lambda I: {"warn": Native(lambda *a, **k: None), "catch_warnings": TypingThing("x"), "simplefilter": Native(lambda *a, **k: None)}
    N["__future__"] = lambda I: {"annotations": None}

    def sys_mod(I):
        so = Stream(lambda: I.out)
        so.which = "out"
        se = Stream(lambda: I.err)
        se.which = "err"
        return {"version_info": (3, 12, 3, "final", 0), "setrecursionlimit": Native(lambda n: _proc(I, "recursion limit")), "getrecursionlimit": Native(lambda: 1000),
                "stderr": se, "stdout": so, "argv": I.argv, "exit": Native(_exit), "platform": "linux", "maxsize": 2**63 - 1, "modules": {},
                "exc_info": Native(lambda fr: (I.type_of(fr.exc.value), fr.exc.value, None) if fr.exc else (None, None, None), "exc_info", True),
                "_getframe": Native(lambda fr, *a: fr, "_getframe", True), "intern": Native(lambda s: s)}

    N["sys"] = sys_mod
    I.host_attrs[Stream] = {"write", "flush"}

    def b_mod(I):
        d = dict(B)
        return d

    N["builtins"] = b_mod
    N["inspect"] = lambda I: {"currentframe": Native(lambda fr: fr, "currentframe", True), "isclass": Native(lambda v: isinstance(v, (Cls, type)))}

    def _pp(fn):
        def g(*a, **k):
            for x in a:
                if isinstance(x, (AStr, SInt)):
                    raise Undecided("path function on unknown text")
            return fn(*[str(x) if isinstance(x, pathlib.PurePath) else x for x in a], **k)
        return Native(g, fn.__name__)

    def path_mod(I):
        d = {n: _pp(getattr(posixpath, n)) for n in ("join", "basename", "dirname", "normpath", "split", "splitext", "isabs", "commonpath", "commonprefix", "normcase")}

        def absp(p):
            return posixpath.normpath(posixpath.join(I.cwd, p))

        def real(p, **k):
            p = absp(p)
            # virtual symbolic links
            for _ in range(10):
                for l, t in I.links.items():
                    if p == l or p.startswith(l + "/"):
                        p = posixpath.normpath(t + p[len(l):])
                        break
                else:
                    return p
            return p

        def rel(p, start=None):
            return posixpath.relpath(absp(p), absp(start if start is not None else "."))

        def exists(p):
            p = real(p)
            return p in I.fs or any(x.startswith(p.rstrip("/") + "/") for x in I.fs)

        d.update(abspath=_pp(absp), realpath=_pp(real), relpath=_pp(rel), exists=_pp(exists), isfile=_pp(lambda p: real(p) in I.fs and I.fs[real(p)] is not IsADir),
                 isdir=_pp(lambda p: exists(p) and (real(p) not in I.fs or I.fs[real(p)] is IsADir)), lexists=_pp(exists), sep="/", expanduser=_pp(lambda p: p), pardir="..", curdir=".",
                 samefile=_pp(lambda a, b: real(a) == real(b)), islink=_pp(lambda p: absp(p) in I.links))
        return d

    I.links = {}
    N["os.path"] = path_mod
    N["posixpath"] = path_mod

    def os_mod(I):
        m = I.import_module("os.path")
        return {"path": m, "getcwd": Native(lambda: I.cwd), "sep": "/", "linesep": "\n", "environ": {}, "fspath": Native(lambda p: str(p)), "name": "posix", "pardir": "..", "curdir": ".", "altsep": None,
                "getenv": Native(lambda k, d=None: d), "chdir": Native(lambda p: (_proc(I, "working directory"), setattr(I, "cwd", posixpath.normpath(posixpath.join(I.cwd, str(p)))))[0]),
                "putenv": Native(lambda k, v: _proc(I, "environment")), "getpid": Native(lambda: 1)}

    N["os"] = os_mod

    class VPath(pathlib.PurePosixPath):
        """Path over the virtual file system of the analysis."""

        def _os(self, f, *a):
            return I.import_module("os.path").ns[f].fn(str(self), *a)

        def is_file(self):
            return self._os("isfile")

        def is_dir(self):
            return self._os("isdir")

        def exists(self):
            return self._os("exists")

        def resolve(self, strict=False):
            p = VPath(self._os("realpath"))
            if strict and not p.exists():
                raise FileNotFoundError(2, "No such file or directory", str(self))
            return p

        def absolute(self):
            return VPath(posixpath.join(I.cwd, str(self)))

        def expanduser(self):
            return self

        def samefile(self, o):
            return str(self.resolve()) == str(VPath(str(o)).resolve())

        def open(self, mode="r", *a, **k):
            return _open(str(self), mode, *a, **k)

        def read_text(self, *a, **k):
            return _open(str(self), "r").read()

    for c in (pathlib.PurePosixPath, VPath):
        I.host_attrs[c] = {"joinpath", "parent", "parts", "name", "suffix", "stem", "is_absolute", "as_posix", "relative_to", "with_suffix", "with_name", "parents", "match", "is_relative_to", "anchor", "root"}
    I.host_str |= {pathlib.PurePosixPath, VPath}
    I.host_attrs[VPath] |= {"is_file", "is_dir", "exists", "resolve", "absolute", "expanduser", "samefile", "open", "read_text"}
    N["pathlib"] = lambda I: {"PurePosixPath": pathlib.PurePosixPath, "PurePath": pathlib.PurePosixPath, "PureWindowsPath": pathlib.PureWindowsPath, "Path": VPath, "PosixPath": VPath}
    I.type_ctor[pathlib.PurePosixPath] = _pp(lambda *a: pathlib.PurePosixPath(*a)).fn
    I.type_ctor[VPath] = _pp(lambda *a: VPath(*a)).fn

    def json_mod(I):
        class JDE(ValueError):
            pass
        return {"dumps": Native(lambda v, *a, **k: json_dumps(I, v, *a, **k)), "loads": Native(lambda t, *a, **k: json_loads(I, t, *a, **k)),
                "load": Native(lambda f, *a, **k: json_loads(I, f.read())), "dump": Native(lambda v, f, *a, **k: f.write(json_dumps(I, v, *a, **k))), "JSONDecodeError": _json.JSONDecodeError}

    N["json"] = json_mod

    def re_mod(I):
        def wrap(fn):
            def g(*a, **k):
                for x in a:
                    if isinstance(x, (AStr, SInt)):
                        raise Undecided("regular expression on unknown text")
                return fn(*a, **k)
            return Native(g, fn.__name__)
        d = {n: wrap(getattr(_re, n)) for n in ("compile", "match", "search", "fullmatch", "sub", "subn", "split", "findall", "finditer", "escape")}
        for n in ("M", "MULTILINE", "S", "DOTALL", "I", "IGNORECASE", "X", "VERBOSE", "A", "ASCII", "U", "UNICODE"):
            d[n] = getattr(_re, n)
        d["Pattern"] = _re.Pattern
        d["Match"] = _re.Match
        d["error"] = _re.error
        return d

    def _rxm(name):
        def g(I, o, *a, **k):
            for x in a:
                if isinstance(x, (AStr, SInt)):
                    raise Undecided("regular expression on unknown text")
            return getattr(o, name)(*a, **k)
        return g

    I.pymethods[_re.Pattern] = {n: _rxm(n) for n in ("match", "search", "fullmatch", "sub", "subn", "split", "findall", "finditer")}
    I.host_attrs[_re.Match] = {"group", "groups", "start", "end", "span", "groupdict", "string", "re", "lastgroup", "lastindex", "pos"}
    I.host_attrs[_re.Pattern] = {"pattern", "flags", "groups"}
    N["re"] = re_mod

    def it_mod(I):
        def takewhile(f, it):
            for x in I.iterate(it):
                if not I.truth(I.call(f, [x], {})):
                    return
                yield x

        def dropwhile(f, it):
            it = iter(I.iterate(it))
            for x in it:
                if not I.truth(I.call(f, [x], {})):
                    yield x
                    break
            yield from it

        def chain(*its):
            for it in its:
                yield from I.iterate(it)

        ch = Module("chain")
        chc = Cls("chain", [], {"from_iterable": Static(Native(lambda its: (x for it in I.iterate(its) for x in I.iterate(it)))), "__new__": Static(Native(lambda c, *its: chain(*its)))})

        def groupby(it, key=None):
            cur = None
            ck = MISSING
            for x in I.iterate(it):
                k = I.call(key, [x], {}) if key is not None else x
                if ck is not MISSING and I.truth(I.eq(k, ck)):
                    cur.append(x)
                else:
                    if ck is not MISSING:
                        yield (ck, iter(cur))
                    cur = [x]
                    ck = k
            if ck is not MISSING:
                yield (ck, iter(cur))

        return {"takewhile": Native(takewhile), "dropwhile": Native(dropwhile), "chain": chc, "count": Native(lambda s=0, st=1: itertools.count(s, st)),
                "combinations": Native(lambda it, r: itertools.combinations(list(I.iterate(it)), r)), "permutations": Native(lambda it, r=None: itertools.permutations(list(I.iterate(it)), r)),
                "product": Native(lambda *its, repeat=1: itertools.product(*[list(I.iterate(i)) for i in its], repeat=repeat)), "islice": Native(lambda it, *a: itertools.islice(I.iterate(it), *a)),
                "repeat": Native(itertools.repeat), "zip_longest": Native(lambda *its, fillvalue=None: itertools.zip_longest(*[I.iterate(i) for i in its], fillvalue=fillvalue)),
                "groupby": Native(groupby), "accumulate": Native(lambda it, *a: itertools.accumulate(I.iterate(it))), "tee": Native(lambda it, n=2: itertools.tee(I.iterate(it), n)),
                "pairwise": Native(lambda it: itertools.pairwise(I.iterate(it))), "filterfalse": Native(lambda f, it: (x for x in I.iterate(it) if not I.truth(I.call(f, [x], {})))),
                "starmap": Native(lambda f, it: (I.call(f, list(I.iterate(x)), {}) for x in I.iterate(it)))}

    N["itertools"] = it_mod
    I.host_attrs[itertools.count] = {"__next__"}

    def col_mod(I):
        cn = Cls("Counter", [dict], {})

        def cinit(self, it=()):
            cupdate(self, it)

        def cupdate(self, it=()):
            if isinstance(it, dict):
                for k, v in it.items():
                    kk = I.find_key(self.hv, k)
                    self.hv[k if kk is MISSING else kk] = (0 if kk is MISSING else self.hv[kk]) + v
                return
            for x in I.iterate(it):
                kk = I.find_key(self.hv, x)
                if kk is MISSING:
                    self.hv[x] = 1
                else:
                    self.hv[kk] += 1

        cn.ns["__init__"] = Native(cinit)
        cn.ns["update"] = Native(cupdate)
        cn.ns["__missing__"] = Native(lambda self, k: 0)
        cn.ns["most_common"] = Native(lambda self, n=None: sorted(self.hv.items(), key=lambda kv: -kv[1])[: n if n is not None else len(self.hv)])
        cn.ns["elements"] = Native(lambda self: [k for k, v in self.hv.items() for _ in range(v)])

        dd = Cls("defaultdict", [dict], {})

        def dinit(self, factory=None, *a, **k):
            self.d["default_factory"] = factory
            I.pymethods[dict]["update"](I, self.hv, *a, **k)

        def dmissing(self, k):
            fct = self.d["default_factory"]
            if fct is None:
                raise PyExc(KeyError(k))
            v = I.call(fct, [], {})
            _mut(I, self.hv, k)
            self.hv[k] = v
            return v

        dd.ns["__init__"] = Native(dinit)
        dd.ns["__missing__"] = Native(dmissing)

        def dget(self, k):
            kk = I.find_key(self.hv, k)
            if kk is MISSING:
                return dmissing(self, k)
            return self.hv[kk]

        dd.ns["__getitem__"] = Native(dget)
        return {"deque": collections.deque, "Counter": cn, "defaultdict": dd, "OrderedDict": collections.OrderedDict, "abc": I.import_module("collections.abc"),
                "namedtuple": Native(lambda *a, **k: _namedtuple(I, *a, **k))}

    def _namedtuple(I, name, fields, defaults=None, **k):
        fl = fields.replace(",", " ").split() if isinstance(fields, str) else list(I.iterate(fields))
        dv = list(I.iterate(defaults)) if defaults is not None else []
        return named_tuple_class(I, name, fl, dict(zip(fl[len(fl) - len(dv):], dv)))

    N["collections"] = col_mod

    def ft_mod(I):
        def reduce(f, it, *init):
            it = iter(I.iterate(it))
            if init:
                acc = init[0]
            else:
                try:
                    acc = next(it)
                except StopIteration:
                    raise PyExc(TypeError("reduce() of empty iterable with no initial value"))
            for x in it:
                acc = I.call(f, [acc, x], {})
            return acc

        def partial(f, *a, **k):
            return Native(lambda *b, **kk: I.call(f, list(a) + list(b), {**k, **kk}))

        def lru(*a, **k):
            def deco(f):
                cache = {}

                def g(*args, **kw):
                    key = (tuple(args), tuple(sorted(kw.items())))
                    kk = I.find_key(cache, key)
                    if kk is not MISSING:
                        return cache[kk]
                    r = I.call(f, list(args), kw)
                    _mut(I, cache, key)
                    cache[key] = r
                    return r
                n = MethodNative(g)
                n.state = cache
                return n
            if a and isinstance(a[0], (Func, Bound)):
                return deco(a[0])
            return Native(deco)

        def wraps(f):
            return Native(lambda g: g)

        def total(c):
            lt, le, gt, ge = (c.find(n) for n in ("__lt__", "__le__", "__gt__", "__ge__"))
            tr = lambda m, a, b: I.truth(I.call(m, [a, b], {}))
            if lt:
                d = {"__gt__": lambda s, o: not tr(lt, s, o) and not I.truth(I.eq(s, o)), "__le__": lambda s, o: tr(lt, s, o) or I.truth(I.eq(s, o)), "__ge__": lambda s, o: not tr(lt, s, o)}
            elif le:
                d = {"__ge__": lambda s, o: not tr(le, s, o) or I.truth(I.eq(s, o)), "__lt__": lambda s, o: tr(le, s, o) and not I.truth(I.eq(s, o)), "__gt__": lambda s, o: not tr(le, s, o)}
            elif gt:
                d = {"__lt__": lambda s, o: not tr(gt, s, o) and not I.truth(I.eq(s, o)), "__ge__": lambda s, o: tr(gt, s, o) or I.truth(I.eq(s, o)), "__le__": lambda s, o: not tr(gt, s, o)}
            else:
                d = {"__le__": lambda s, o: not tr(ge, s, o) or I.truth(I.eq(s, o)), "__gt__": lambda s, o: tr(ge, s, o) and not I.truth(I.eq(s, o)), "__lt__": lambda s, o: not tr(ge, s, o)}
            for n, f in d.items():
                if c.find(n) is None:
                    c.ns[n] = Native(f)
            return c

        def cached_property(f):
            def get(self):
                v = I.call(f, [self], {})
                self.d[f.name] = v
                return v
            return Prop(Native(get))

        return {"reduce": Native(reduce), "partial": Native(partial), "lru_cache": Native(lru), "cache": Native(lru), "wraps": Native(wraps), "total_ordering": Native(total), "cached_property": Native(cached_property),
                "cmp_to_key": Native(functools.cmp_to_key)}

    def MethodNative(g):
        return Native(g)

    N["functools"] = ft_mod

    def op_mod(I):
        d = {n: Native(getattr(_operator, n)) for n in ("add", "sub", "mul", "floordiv", "mod", "neg", "iconcat", "concat")}
        d["iconcat"] = Native(lambda a, b: I.iop(ast.Add, a, b))
        d["eq"] = Native(lambda a, b: I.eq(a, b))
        d["ne"] = Native(lambda a, b: I.ne(a, b))
        d["lt"] = Native(lambda a, b: I.compare(ast.Lt, a, b))
        d["gt"] = Native(lambda a, b: I.compare(ast.Gt, a, b))
        d["le"] = Native(lambda a, b: I.compare(ast.LtE, a, b))
        d["ge"] = Native(lambda a, b: I.compare(ast.GtE, a, b))
        d["is_"] = Native(lambda a, b: I.is_(a, b))
        d["not_"] = Native(lambda a: not I.truth(a))
        d["contains"] = Native(lambda a, b: I.contains(a, b))
        d["getitem"] = Native(lambda a, b: I.getitem(a, b))

        def attrgetter(*ns):
            def one(o, n):
                for p in n.split("."):
                    o = I.getattr(o, p)
                return o
            return Native(lambda o: one(o, ns[0]) if len(ns) == 1 else tuple(one(o, n) for n in ns))

        d["attrgetter"] = Native(attrgetter)
        d["itemgetter"] = Native(lambda *ks: Native(lambda o: I.getitem(o, ks[0]) if len(ks) == 1 else tuple(I.getitem(o, k) for k in ks)))
        d["methodcaller"] = Native(lambda n, *a, **k: Native(lambda o: I.call_method(o, n, list(a), k)))
        return d

    N["operator"] = op_mod
    N["copy"] = lambda I: {"deepcopy": Native(lambda v, memo=None: deepcopy(I, v)), "copy": Native(lambda v: shallow(I, v))}
    N["threading"] = lambda I: {"Lock": Native(lambda: LockStub(I)), "RLock": Native(lambda: RLockStub(I)), "local": I_local(I), "Thread": TypingThing("Thread"), "get_ident": Native(lambda: 1 + I.thread), "current_thread": Native(lambda: 1 + I.thread)}

    class RLockStub(LockStub):
        again = True

    I.host_attrs[RLockStub] = {"acquire", "release", "locked"}

    def I_local(I):
        def new(cls, *a, **k):
            o = Obj(cls)
            I.locals.append([o, a, k, None])
            return o

        return Cls("local", [], {"__new__": Static(Native(new))})

    N["weakref"] = lambda I: {"WeakKeyDictionary": Native(lambda *a: {}), "WeakValueDictionary": Native(lambda *a: {}), "ref": Native(lambda o: Native(lambda: o))}
    N["string"] = lambda I: {n: getattr(_string, n) for n in ("ascii_letters", "digits", "hexdigits", "punctuation", "whitespace", "ascii_lowercase", "ascii_uppercase", "octdigits", "printable")}
    N["io"] = lambda I: {"StringIO": I_sio(I), "TextIOWrapper": TypingThing("x")}
    N["math"] = lambda I: {n: Native(getattr(__import__("math"), n)) for n in ("floor", "ceil", "isnan", "isinf", "trunc", "modf", "fabs")} | {"inf": float("inf")}
    N["decimal"] = lambda I: _decimal(I)
    N["contextlib"] = lambda I: {"contextmanager": Native(lambda f: Native(lambda *a, **k: _GenCtx(I, I.call(f, list(a), k)))), "suppress": Native(lambda *e: _Suppress(I, e)), "nullcontext": Native(lambda v=None: _NullCtx(v))}
    N["textwrap"] = lambda I: {"dedent": Native(lambda s: __import__("textwrap").dedent(s)), "indent": Native(lambda s, p: __import__("textwrap").indent(s, p))}
    N["argparse"] = lambda I: argparse_mod(I)
    N["traceback"] = lambda I: {"print_exc": Native(lambda *a, **k: None), "format_exc": Native(lambda *a: ""), "format_exception": Native(lambda *a: [])}
    N["time"] = lambda I: {"time": Native(lambda: 0.0), "perf_counter": Native(lambda: 0.0)}
    N["dataclasses"] = lambda I: dataclass_mod(I)
    N["types"] = lambda I: {"SimpleNamespace": Cls("SimpleNamespace", [], {"__init__": Native(lambda self, **k: self.d.update(k))}), "MappingProxyType": Native(lambda d: d), "ModuleType": TypingThing("ModuleType"), "TracebackType": TypingThing("TracebackType")}
    N["bisect"] = lambda I: {"bisect_left": Native(lambda a, x, **k: __import__("bisect").bisect_left(a, x)), "bisect_right": Native(lambda a, x: __import__("bisect").bisect_right(a, x)), "bisect": Native(lambda a, x: __import__("bisect").bisect(a, x)), "insort": Native(lambda a, x: __import__("bisect").insort(a, x))}
    N["heapq"] = lambda I: {n: Native(getattr(__import__("heapq"), n)) for n in ("heappush", "heappop", "heapify")}
    N["gettext"] = lambda I: {"gettext": Native(lambda s: s)}

    def _decimal(I):
        import decimal
        I.host_attrs[decimal.Decimal] = {"quantize", "normalize", "as_tuple", "is_nan", "to_integral_value", "is_signed"}

        def mk(*a):
            if a and isinstance(a[0], (AStr, SInt)):
                raise Undecided("Decimal of unknown")
            return decimal.Decimal(*a)
        I.type_ctor[decimal.Decimal] = mk
        return {"Decimal": decimal.Decimal, "InvalidOperation": decimal.InvalidOperation}

    def I_sio(I):
        c = Cls("StringIO", [], {})

        def init(self, s=""):
            self.d["b"] = [s] if s else []

        c.ns["__init__"] = Native(init)
        c.ns["write"] = Native(lambda self, s: self.d["b"].append(s))
        c.ns["getvalue"] = Native(lambda self: mkstr([p for b in self.d["b"] for p in parts_of(b)]))
        c.ns["__enter__"] = Native(lambda self: self)
        c.ns["__exit__"] = Native(lambda self, *a: False)
        c.ns["close"] = Native(lambda self: None)
        c.ns["read"] = Native(lambda self: mkstr([p for b in self.d["b"] for p in parts_of(b)]))
        return c

    from . import igraphmodel
    igraphmodel.install(I)
    from . import antlrmodel
    antlrmodel.install(I)


class IsADir:
    pass


class _GenCtx:
    def __init__(self, I, gen):
        self.I = I
        self.gen = gen

    def __enter__(self):
        return next(self.gen)

    def __exit__(self, t, v, tb):
        if t is None:
            for _ in self.gen:
                raise PyExc(RuntimeError("generator didn't stop"))
            return False
        try:
            self.gen.throw(PyExc(v))
        except StopIteration:
            return True
        return True


class _Suppress:
    def __init__(self, I, e):
        self.I = I
        self.e = e

    def __enter__(self):
        return None

    def __exit__(self, t, v, tb):
        return t is not None and self.I.exc_match(v, tuple(self.e))


class _NullCtx:
    def __init__(self, v):
        self.v = v

    def __enter__(self):
        return self.v

    def __exit__(self, *a):
        return False


def argparse_mod(I):
    """ArgumentParser model: parse_args() binds the values of I.cli_args (dest -> value), defaults otherwise."""
    P = Cls("ArgumentParser", [], {})

    def init(self, *a, **k):
        self.d["_args"] = []

    def add(self, *names, **k):
        dest = k.get("dest")
        pos = not names[0].startswith("-")
        if dest is None:
            longs = [n for n in names if n.startswith("--")]
            dest = (longs[0] if longs else names[0]).lstrip("-").replace("-", "_")
        default = k.get("default")
        act = k.get("action")
        if act == "help" or act == "version":
            raise Undecided("argparse action")
        if act == "store_true" and default is None:
            default = False
        self.d["_args"].append((dest, names, default, pos, k.get("required", pos), k.get("nargs"), act))
        return None

    def parse(self, argv=None, *a):
        """The command line of the analysis (I.argv); interleaved options as argparse binds them."""
        args = list(I.argv[1:] if argv is None else I.iterate(argv))
        ns = Obj(Cls("Namespace", [], {}))
        opts, poss = {}, []
        for t in self.d["_args"]:
            if t[3]:
                poss.append(t)
            else:
                for n in t[1]:
                    opts[n] = t
            ns.d[t[0]] = t[2]
        seen = set()
        pos = []
        fail = lambda: PyExc(SystemExit(2))
        i = 0
        while i < len(args):
            x = args[i]
            i += 1
            if not (isinstance(x, str) and x.startswith("-") and len(x) > 1):
                pos.append(x)
                continue
            val = None
            if x.startswith("--") and "=" in x:
                x, val = x.split("=", 1)
            if x not in opts:
                c = [o for o in opts if o.startswith(x)] if x.startswith("--") else []
                if len({opts[o][0] for o in c}) != 1:
                    raise fail()
                x = c[0]
            dest, _n, default, _p, _r, nargs, act = opts[x]
            seen.add(dest)
            if act in ("store_true", "store_false"):
                ns.d[dest] = act == "store_true"
                continue
            if act not in (None, "store", "append", "extend"):
                raise Undecided("argparse action")
            vals = [val] if val is not None else []
            if val is None:
                while i < len(args) and not args[i].startswith("-") and (nargs in ("*", "+") or len(vals) < (nargs if isinstance(nargs, int) else 1)):
                    vals.append(args[i])
                    i += 1
            if nargs is None and len(vals) != 1 or nargs == "+" and not vals or isinstance(nargs, int) and len(vals) != nargs:
                raise fail()
            v = vals if nargs in ("*", "+") or isinstance(nargs, int) else (vals[0] if vals else None)
            if act == "append":
                v = list(ns.d[dest] or []) + [v]
            elif act == "extend":
                v = list(ns.d[dest] or []) + list(v)
            ns.d[dest] = v
        for dest, names, default, p, req, nargs, act in poss:
            if nargs is None:
                if not pos:
                    raise fail()
                ns.d[dest] = pos.pop(0)
            elif nargs == "?":
                if pos:
                    ns.d[dest] = pos.pop(0)
            elif nargs in ("*", "+"):
                if nargs == "+" and not pos:
                    raise fail()
                ns.d[dest] = pos
                pos = []
            else:
                raise Undecided("argparse nargs")
        if pos:
            raise fail()
        for t in self.d["_args"]:
            if not t[3] and t[4] and t[0] not in seen:
                raise fail()
        return ns

    P.ns["__init__"] = Native(init)
    P.ns["add_argument"] = Native(add)
    P.ns["parse_args"] = Native(parse)
    P.ns["add_argument_group"] = Native(lambda self, *a, **k: self)
    P.ns["add_mutually_exclusive_group"] = Native(lambda self, *a, **k: self)
    P.ns["print_help"] = Native(lambda self, *a: None)
    P.ns["print_usage"] = Native(lambda self, *a: None)

    def err(self, msg):
        raise PyExc(SystemExit(2))

    P.ns["error"] = Native(err)
    return {"ArgumentParser": P, "Namespace": Cls("Namespace", [], {}), "RawDescriptionHelpFormatter": TypingThing("x"), "RawTextHelpFormatter": TypingThing("x"), "FileType": TypingThing("x")}


def named_tuple_class(I, name, fields, defaults, ns=None, module=None, qual=None):
    """A tuple with named fields; ns: what the class body defines besides them"""
    c = Cls(name, [tuple], dict(ns or {}), module or "?", qual or name)

    def new(cls, *a, **k):
        if len(a) > len(fields):
            raise PyExc(TypeError(f"{name}() takes {len(fields)} positional arguments"))
        d = dict(zip(fields, a))
        for n, v in k.items():
            if n not in fields or n in d:
                raise PyExc(TypeError(f"{name}() got an unexpected keyword argument '{n}'"))
            d[n] = v
        for n in fields:
            if n not in d:
                if n not in defaults:
                    raise PyExc(TypeError(f"{name}() missing a required argument: '{n}'"))
                d[n] = defaults[n]
        o = Obj(cls)
        o.hv = tuple(d[n] for n in fields)
        return o

    def val(o):
        return o.hv if type(o) is Obj and isinstance(o.hv, tuple) else o

    def put(k, v):
        c.ns.setdefault(k, v)

    c.ns["__new__"] = Native(new)
    put("__init__", Native(lambda self, *a, **k: None))
    put("__eq__", Native(lambda self, o: I.eq(self.hv, val(o)) if isinstance(val(o), tuple) else NotImplemented))
    put("__hash__", Native(lambda self: hash(self.hv)))
    put("__iter__", Native(lambda self: iter(self.hv)))
    put("__len__", Native(lambda self: len(self.hv)))
    put("__getitem__", Native(lambda self, i: I.getitem(self.hv, i)))
    put("__add__", Native(lambda self, o: self.hv + tuple(val(o))))
    for op, nm in ((ast.Lt, "__lt__"), (ast.LtE, "__le__"), (ast.Gt, "__gt__"), (ast.GtE, "__ge__")):
        put(nm, Native(lambda self, o, op=op: I.compare(op, self.hv, val(o))))
    put("_fields", tuple(fields))
    put("_replace", Native(lambda self, **k: new(self.cls, **{**dict(zip(fields, self.hv)), **k})))
    put("_asdict", Native(lambda self: dict(zip(fields, self.hv))))
    put("_make", ClsMethod(Native(lambda cls, it: new(cls, *I.iterate(it)))))
    put("__repr__", Native(lambda self: mkstr([name + "("] + [p for i, n in enumerate(fields) for p in ((", " if i else "") + n + "=",) + parts_of(I.repr(self.hv[i]))] + [")"])))
    for i, n in enumerate(fields):
        c.ns[n] = Prop(Native(lambda self, i=i: self.hv[i]))
    c.eq_, c.hash_ = c.ns["__eq__"], c.ns["__hash__"]
    for v in c.ns.values():
        for g in (v, getattr(v, "fn", None), getattr(v, "fget", None)):
            if isinstance(g, Func) and g.cls is None:
                g.cls = c
    return c


def dataclass_mod(I):
    FIELD = Cls("Field", [], {})
    FROZEN = Cls("FrozenInstanceError", [AttributeError], {})

    def dcf(o):
        c = o.cls if type(o) is Obj else o
        f = next((x.dc_fields for x in c.mro if hasattr(x, "dc_fields")), None)
        if f is None:
            raise PyExc(TypeError("not a dataclass"))
        return f

    def asdict(o):
        def conv(v):
            if type(v) is Obj and any(hasattr(x, "dc_fields") for x in v.cls.mro):
                return asdict(v)
            if type(v) in (list, tuple):
                return type(v)(conv(x) for x in v)
            if type(v) is dict:
                return {conv(k): conv(x) for k, x in v.items()}
            return v
        return {n: conv(o.d[n]) for n in dcf(o)}

    def fields_of(o):
        out = []
        for n in dcf(o):
            f = Obj(FIELD)
            f.d["name"] = n
            out.append(f)
        return tuple(out)

    def field(**k):
        o = Obj(FIELD)
        o.d.update(k)
        return o

    def deco(c, eq=True, frozen=False, order=False, **k):
        fields = []
        for b in reversed(c.mro):
            if isinstance(b, Cls) and b.node is not None:
                for s in b.node.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and "ClassVar" not in ast.dump(s.annotation):
                        if s.target.id not in fields:
                            fields.append(s.target.id)

        def init(self, *a, **kw):
            for n, v in zip(fields, a):
                self.d[n] = v
            for n in fields[len(a):]:
                if n in kw:
                    self.d[n] = kw[n]
                else:
                    dv = c.find(n)
                    if type(dv) is Obj and dv.cls is FIELD:
                        if "default_factory" in dv.d:
                            self.d[n] = I.call(dv.d["default_factory"], [], {})
                            continue
                        if "default" in dv.d:
                            self.d[n] = dv.d["default"]
                            continue
                        raise PyExc(TypeError(f"missing argument {n}"))
                    if not any(isinstance(x, Cls) and n in x.ns for x in c.mro):
                        raise PyExc(TypeError(f"missing argument {n}"))
                    self.d[n] = dv
            for n in kw:
                if n not in fields:
                    raise PyExc(TypeError(f"unexpected argument {n}"))
            if c.find("__post_init__") is not None:
                I.call_method(self, "__post_init__", [])

        c.ns.setdefault("__init__", Native(init))
        if eq and "__eq__" not in c.ns:
            c.ns["__eq__"] = Native(lambda self, o: type(o) is Obj and o.cls is self.cls and all(I.truth(I.eq(self.d.get(n), o.d.get(n))) for n in fields))
            c.eq_ = c.ns["__eq__"]
            if frozen:
                c.ns["__hash__"] = Native(lambda self: hash(tuple(self.d.get(n) for n in fields)))
                c.hash_ = c.ns["__hash__"]
        c.dc_fields = fields
        if order:
            key = lambda o: tuple(o.d.get(n) for n in fields)
            for op, nm in ((ast.Lt, "__lt__"), (ast.LtE, "__le__"), (ast.Gt, "__gt__"), (ast.GtE, "__ge__")):
                c.ns.setdefault(nm, Native(lambda self, o, op=op: I.compare(op, key(self), key(o))))
        if frozen and "__setattr__" not in c.ns:
            def no(self, n, v=None):
                e = Obj(FROZEN)
                e.d["args"] = (f"cannot assign to field '{n}'",)
                raise PyExc(e)
            c.ns["__setattr__"] = Native(no)
        c.ns.setdefault("__match_args__", tuple(fields))
        if "__repr__" not in c.ns:
            c.ns["__repr__"] = Native(lambda self: mkstr([c.name + "("] + [p for i, n in enumerate(fields) for p in ((", " if i else "") + n + "=",) + parts_of(I.repr(self.d[n]))] + [")"]))
        return c

    def dataclass(*a, **k):
        if a:
            return deco(a[0])
        return Native(lambda c: deco(c, **{x: y for x, y in k.items() if x in ("eq", "frozen", "order")}))

    return {"dataclass": Native(dataclass), "field": Native(field), "replace": Native(lambda o, **k: _replace(I, o, k)), "asdict": Native(asdict), "astuple": Native(lambda o: tuple(asdict(o).values())),
            "fields": Native(fields_of), "is_dataclass": Native(lambda o: hasattr(o.cls if type(o) is Obj else o, "dc_fields")), "FrozenInstanceError": FROZEN}


def _replace(I, o, k):
    r = shallow(I, o)
    r.d.update(k)
    return r
