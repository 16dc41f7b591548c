"""Abstract values.

Concrete constants of the analysed program are represented by themselves.  Unknown values are

  Atom   an unknown leaf (identifier text, opcode name, string content, ...).  It stands for *every* value of its
         kind.  Two different atoms are assumed different from each other and from every constant of the program when
         they are `generic` (an identifier the program text never mentions); otherwise equality is an open question
         and the analysis takes both answers.
  AStr   a string: concatenation of constants and atoms.
  SInt   an integer: linear form c0 + sum(ci * atom_i).

Every question whose answer depends on an unknown is sent to `ORACLE.decide(key)`, which records it and explores both
answers (see engine.Explorer).  Nothing is ever sent to a solver.
"""
from __future__ import annotations


class Undecided(Exception):
    """The abstraction is too coarse to go on (an operation on an unknown the domain does not model)."""


class _NoOracle:
    def decide(self, key, default=None):
        raise Undecided(f"question outside of an exploration: {key}")

    def num(self, key):
        raise Undecided(key)


class Ctl:
    """Mutable global control (current oracle / interpreter)."""

    oracle = _NoOracle()
    interp = None
    rep = False  # answer open questions for the representatives of the atoms (one feasible partition)


class Atom:
    __slots__ = ("name", "kind", "generic", "rep")

    def __init__(self, name, kind="name", generic=True, rep=None):
        self.name = name
        self.kind = kind  # name | dec (decimal digits of SInt) | content (any string) | var ($name)
        self.generic = generic
        self.rep = rep if rep is not None else name

    def __repr__(self):
        return "⟨" + self.name + "⟩"


def _norm(parts):
    out = []
    for p in parts:
        if type(p) is AStr:
            for q in p.parts:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] = out[-1] + q
                else:
                    out.append(q)
            continue
        if isinstance(p, str):
            if p == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] = out[-1] + p
                continue
        out.append(p)
    return tuple(out)


def mkstr(parts):
    parts = _norm(parts)
    if not parts:
        return ""
    if len(parts) == 1 and isinstance(parts[0], str):
        return parts[0]
    return AStr(parts)


def parts_of(x):
    if isinstance(x, AStr):
        return x.parts
    if isinstance(x, str):
        return (x,) if x else ()
    raise TypeError(f"expected str, got {type(x).__name__}")


def _first_chars(a: Atom):
    """Set of characters an atom may start with, or None if unknown; atoms of names/dec are never empty."""
    if a.kind == "dec":
        return set("-0123456789")
    if a.kind == "pdec":
        return set("123456789")
    if a.kind == "var":
        return {"$"}
    if a.kind == "name":
        return set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
    return None


_NAMECH = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789")


def _chars(a: Atom):
    if a.kind == "dec":
        return set("-0123456789")
    if a.kind == "pdec":
        return set("0123456789")
    if a.kind == "var":
        return _NAMECH | {"$"}
    if a.kind == "name":
        return _NAMECH
    if a.kind == "plain":  # plain text: no quotes, backslashes, newlines
        return None
    return None


_PLAIN_EXCL = set("'\"\\\n\r\f\v\x1c\x1d\x1e\x85\u2028\u2029\t${}<>")


# "txt": a non-empty text without any of these characters (so it neither begins nor ends nor continues a special sequence)
_TXT_EXCL = _PLAIN_EXCL | set(" \xa0\u3000n\0\x1f")


class AStr:
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return "".join(p if isinstance(p, str) else repr(p) for p in self.parts)

    def __hash__(self):
        return hash(self.parts)

    def __add__(self, o):
        if not isinstance(o, (str, AStr)):
            raise TypeError('can only concatenate str (not "%s") to str' % type(o).__name__)
        return mkstr(self.parts + parts_of(o))

    def __radd__(self, o):
        if not isinstance(o, (str, AStr)):
            raise TypeError("unsupported operand type(s) for +")
        return mkstr(parts_of(o) + self.parts)

    def __mul__(self, n):
        return mkstr(self.parts * n)

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, (str, AStr)):
            return False
        return str_eq(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __bool__(self):
        for p in self.parts:
            if isinstance(p, str) or p.kind not in ("content", "plain"):
                return True
        return Ctl.oracle.decide(("nonempty", self.parts))

    # -- text questions
    def _lead(self):
        return self.parts[0]

    def startswith(self, pre, *a):
        if a:
            raise Undecided("startswith with offset")
        if isinstance(pre, tuple):
            return any(self.startswith(p) for p in pre)
        if isinstance(pre, AStr):
            if self.parts[: len(pre.parts)] == pre.parts:
                return True
            raise Undecided("startswith(AStr)")
        if pre == "":
            return True
        p = self.parts[0]
        if isinstance(p, str):
            if len(p) >= len(pre):
                return p.startswith(pre)
            if not pre.startswith(p):
                return False
            return mkstr(self.parts[1:]).startswith(pre[len(p):]) if len(self.parts) > 1 else False
        fc = _first_chars(p)
        if fc is not None and pre[0] not in fc:
            return False
        if p.kind == "txt" and pre[0] in _TXT_EXCL:
            return False
        if p.kind == "plain" and pre[0] in _PLAIN_EXCL:
            # empty content would expose the next part
            return False if len(self.parts) == 1 else Ctl.oracle.decide(("startswith", self.parts, pre))
        if p.kind == "dec":
            # canonical decimal numeral: only the sign is an open question, handled via the number
            if pre == "-":
                return Ctl.oracle.decide(("neg", p.name))
            if pre in ("0x", "0X", "0b", "0o", "0B", "0O"):
                return False
        if p.generic and p.kind == "name":
            return False
        return Ctl.oracle.decide(("startswith", self.parts, pre))

    def endswith(self, suf, *a):
        if isinstance(suf, tuple):
            return any(self.endswith(p) for p in suf)
        if isinstance(suf, AStr):
            if self.parts[-len(suf.parts):] == suf.parts:
                return True
            raise Undecided("endswith(AStr)")
        if suf == "":
            return True
        p = self.parts[-1]
        if isinstance(p, str):
            if len(p) >= len(suf):
                return p.endswith(suf)
            if not suf.endswith(p):
                return False
            return mkstr(self.parts[:-1]).endswith(suf[: -len(p)]) if len(self.parts) > 1 else False
        cs = _chars(p)
        if cs is not None and suf[-1] not in cs:
            return False
        if p.generic and p.kind in ("name", "var"):
            return False
        if p.kind == "txt" and suf[-1] in _TXT_EXCL:
            return False
        if p.kind == "plain" and suf[-1] in _PLAIN_EXCL and len(self.parts) == 1:
            return False
        return Ctl.oracle.decide(("endswith", self.parts, suf))

    def contains(self, sub):
        if isinstance(sub, AStr):
            for i in range(len(self.parts)):
                if self.parts[i: i + len(sub.parts)] == sub.parts:
                    return True
            return Ctl.oracle.decide(("contains", self.parts, sub.parts))
        if sub == "":
            return True
        maybe = False
        for p in self.parts:
            if isinstance(p, str):
                if sub in p:
                    return True
        if len(sub) == 1:
            for p in self.parts:
                if isinstance(p, str):
                    continue
                cs = _chars(p)
                if cs is not None and sub not in cs:
                    continue
                if p.kind == "plain" and sub in _PLAIN_EXCL:
                    continue
                if p.kind == "txt" and sub in _TXT_EXCL:
                    continue
                maybe = True
        else:
            # multi-char: impossible when some char of it can come from no part in any alignment
            if all(c in _TXT_EXCL for c in sub) and all(isinstance(p, str) or p.kind == "txt" for p in self.parts):
                return False  # all of it in one constant part, or not at all
            allc = set()
            free = False
            for p in self.parts:
                if isinstance(p, str):
                    allc |= set(p)
                else:
                    cs = _chars(p)
                    if cs is None:
                        if p.kind == "plain":
                            continue
                        free = True
                    else:
                        allc |= cs
            if not free and any(p.kind == "plain" for p in self.parts if not isinstance(p, str)):
                if any(c in _PLAIN_EXCL and c not in allc for c in sub):
                    return False
                maybe = True
            elif not free and any(c not in allc for c in sub):
                return False
            else:
                maybe = True
            if all(isinstance(p, str) or p.generic for p in self.parts) and sub.isidentifier():
                maybe = False
        if not maybe:
            return False
        return Ctl.oracle.decide(("contains", self.parts, sub))

    def _strip(self, chars, left, right):
        parts = list(self.parts)
        ws = " \t\n\r\x0b\x0c" if chars is None else chars
        if left:
            while parts:
                p = parts[0]
                if isinstance(p, str):
                    q = p.lstrip(ws)
                    if q:
                        parts[0] = q
                        break
                    parts.pop(0)
                else:
                    cs = _first_chars(p)
                    if cs is not None and not (cs & set(ws)) or p.kind == "txt" and set(ws) <= _TXT_EXCL:
                        break
                    if p.kind == "dec" and set(ws) == {"0"}:
                        raise Undecided("lstrip zeros of a numeral")
                    return self._unk("strip", (chars, left, right))
        if right:
            while parts:
                p = parts[-1]
                if isinstance(p, str):
                    q = p.rstrip(ws)
                    if q:
                        parts[-1] = q
                        break
                    parts.pop()
                else:
                    cs = _chars(p)
                    if cs is not None and not (cs & set(ws)) or p.kind == "txt" and set(ws) <= _TXT_EXCL:
                        break
                    return self._unk("strip", (chars, left, right))
        return mkstr(parts)

    def _unk(self, op, args):
        """Uninterpreted string function of this string: equal arguments give the equal result."""
        return AStr((Atom(f"{op}{args!r}({self!r})", "content", False),))

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def replace(self, a, b, *n):
        if n:
            raise Undecided("replace with count")
        if isinstance(a, AStr):
            raise Undecided("replace(AStr)")
        out = []
        for p in self.parts:
            if isinstance(p, str):
                q = p.split(a)
                for i, s in enumerate(q):
                    if i:
                        out.extend(parts_of(b))
                    out.append(s)
            else:
                if AStr((p,)).contains(a):
                    out.append(Atom(f"replace({a!r},{b!r},{p.name})", "content", False))
                else:
                    out.append(p)
        return mkstr(out)

    def removeprefix(self, pre):
        if self.startswith(pre):
            return self._drop(len(pre))
        return self

    def removesuffix(self, suf):
        if self.endswith(suf):
            return self._take_r(len(suf))
        return self

    def _drop(self, n):
        parts = list(self.parts)
        while n and parts:
            p = parts[0]
            if isinstance(p, str):
                if len(p) > n:
                    parts[0] = p[n:]
                    n = 0
                else:
                    n -= len(p)
                    parts.pop(0)
            elif p.kind == "var" and n >= 1:
                parts[0] = Atom(p.name[1:] if p.name.startswith("$") else p.name + "[1:]", "name", p.generic)
                n -= 1
            else:
                return self._unk("drop", (n,))
        return mkstr(parts)

    def _take_r(self, n):
        parts = list(self.parts)
        while n and parts:
            p = parts[-1]
            if isinstance(p, str):
                if len(p) > n:
                    parts[-1] = p[:-n]
                    n = 0
                else:
                    n -= len(p)
                    parts.pop()
            else:
                return self._unk("drop_r", (n,))
        return mkstr(parts)

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None:
            s = self
            if k.start is not None:
                if not isinstance(k.start, int) or k.start < 0:
                    return self._unk("slice", (k.start, k.stop))
                s = s._drop(k.start) if k.start else s
            if k.stop is not None:
                if not isinstance(k.stop, int) or k.stop >= 0:
                    return self._unk("slice", (k.start, k.stop))
                if isinstance(s, str):
                    s = s[: k.stop]
                else:
                    s = s._take_r(-k.stop)
            return s
        if k == 0:
            p = self.parts[0]
            if isinstance(p, str):
                return p[0]
            if p.kind == "var":
                return "$"
            return AStr((Atom(f"{p.name}[0]", "name", p.generic),))
        if k == -1:
            p = self.parts[-1]
            if isinstance(p, str):
                return p[-1]
            return AStr((Atom(f"{p.name}[-1]", "name", p.generic),))
        return self._unk("index", (k,))

    def split(self, sep=None, maxsplit=-1):
        if sep is None or isinstance(sep, AStr):
            raise Undecided("split")
        out = [[]]
        n = 0
        for p in self.parts:
            if isinstance(p, str):
                q = p.split(sep)
                for i, s in enumerate(q):
                    if i:
                        if 0 <= maxsplit <= n:
                            out[-1].append(sep)
                        else:
                            out.append([])
                            n += 1
                    out[-1].append(s)
            else:
                if AStr((p,)).contains(sep):
                    raise Undecided("split of unknown text")
                out[-1].append(p)
        return [mkstr(o) for o in out]

    def splitlines(self, keepends=False):
        out = []
        cur = []
        for p in self.parts:
            if isinstance(p, str):
                q = p.splitlines(keepends=True)
                for s in q:
                    body = s.rstrip("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
                    if len(body) != len(s):
                        cur.append(s if keepends else body)
                        out.append(mkstr(cur))
                        cur = []
                    else:
                        cur.append(s)
            else:
                if p.kind == "content":
                    raise Undecided("splitlines of unknown text")
                cur.append(p)
        if cur:
            out.append(mkstr(cur))
        return out

    def count(self, sub):
        n = 0
        for p in self.parts:
            if isinstance(p, str):
                n += p.count(sub)
            elif AStr((p,)).contains(sub):
                raise Undecided("count in unknown text")
        return n

    def join(self, it):
        out = []
        for i, x in enumerate(it):
            if i:
                out.extend(self.parts)
            out.extend(parts_of(x))
        return mkstr(out)

    def partition(self, sep):
        r = self.split(sep, 1)
        if len(r) == 1:
            return (self, "", "")
        return (r[0], sep, r[1])

    def find(self, sub):
        if not self.contains(sub):
            return -1
        raise Undecided("find")

    def lower(self):
        return self._map("lower", str.lower)

    def upper(self):
        return self._map("upper", str.upper)

    def _map(self, nm, fn):
        return mkstr([fn(p) if isinstance(p, str) else Atom(f"{nm}({p.name})", p.kind, p.generic) for p in self.parts])

    def isnumeric(self):
        return self.isdigit()

    def isdigit(self):
        for p in self.parts:
            if isinstance(p, str):
                if not p.isdigit():
                    return False
            elif p.kind == "pdec":
                pass
            elif p.kind == "dec":
                if Ctl.oracle.decide(("neg", p.name)):
                    return False
            elif p.kind in ("name", "var"):
                return False
            else:
                return Ctl.oracle.decide(("isdigit", self.parts))
        return True

    def isidentifier(self):
        p = self.parts[0]
        if isinstance(p, str):
            if not p[0].isidentifier():
                return False
        elif p.kind in ("dec", "pdec", "var"):
            return False
        for p in self.parts:
            if isinstance(p, str):
                if not ("a" + p).isidentifier():
                    return False
            elif p.kind in ("content", "plain", "dec", "var"):
                return Ctl.oracle.decide(("isident", self.parts))
        return True

    def isspace(self):
        for p in self.parts:
            if isinstance(p, str):
                if not p.isspace():
                    return False
            elif _chars(p) is not None:
                return False
            else:
                return Ctl.oracle.decide(("isspace", self.parts))
        return True

    def encode(self, *a):
        raise Undecided("encode")

    def __len__(self):
        raise Undecided("len of unknown string")

    def alen(self):
        if all(isinstance(p, str) for p in self.parts):
            return sum(len(p) for p in self.parts)
        c = 0
        terms = {}
        for p in self.parts:
            if isinstance(p, str):
                c += len(p)
            else:
                k = "len:" + p.name
                terms[k] = terms.get(k, 0) + 1
        return mkint(c, terms)

    def __iter__(self):
        for p in self.parts:
            if isinstance(p, str):
                yield from p
            else:
                yield AStr((Atom(p.name + "[0]", p.kind, p.generic),))
                raise Undecided("iteration over unknown string")

    def __lt__(self, o):
        return Ctl.oracle.decide(("strlt", self.parts, parts_of(o)))

    def __gt__(self, o):
        return Ctl.oracle.decide(("strlt", parts_of(o), self.parts))

    def concrete(self):
        """A representative text."""
        return "".join(p if isinstance(p, str) else p.rep for p in self.parts)


ASTR_METHODS = {
    "startswith", "endswith", "strip", "lstrip", "rstrip", "replace", "removeprefix", "removesuffix", "split",
    "splitlines", "count", "join", "partition", "find", "lower", "upper", "isnumeric", "isdigit", "isidentifier",
    "isspace", "encode",
}


def str_eq(a, b):
    """Equality of two strings at least one of which is abstract."""
    pa, pb = list(parts_of(a)), list(parts_of(b))
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], Atom) and isinstance(pb[0], Atom) and pa[0].kind == pb[0].kind == "dec" and (pa[0].name in LINEAR or pb[0].name in LINEAR):
        x, y = (LINEAR[p[0].name] if p[0].name in LINEAR else SInt.var(p[0].name) for p in (pa, pb))
        return x == y
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], Atom) and isinstance(pb[0], Atom) and pa[0].kind == pb[0].kind == "json":
        from .pymodel import JSONS

        return JSONS[pa[0].name] == JSONS[pb[0].name]
    for p, q in ((pa, pb), (pb, pa)):
        if len(p) == 1 and isinstance(p[0], Atom) and p[0].name in LINEAR and all(isinstance(t, str) for t in q):
            t = "".join(q)
            return LINEAR[p[0].name] == int(t) if t.lstrip("-").isdigit() and str(int(t)) == t else False
    # cancel common prefix / suffix
    while pa and pb:
        x, y = pa[0], pb[0]
        if x is y:
            pa.pop(0), pb.pop(0)
            continue
        if isinstance(x, str) and isinstance(y, str):
            n = 0
            while n < len(x) and n < len(y) and x[n] == y[n]:
                n += 1
            if n == 0 or (n < len(x) and n < len(y)):
                return False
            pa[0] = x[n:]
            pb[0] = y[n:]
            if not pa[0]:
                pa.pop(0)
            if not pb[0]:
                pb.pop(0)
            continue
        if isinstance(x, Atom) and isinstance(y, Atom) and x.name == y.name and x.kind == y.kind:
            pa.pop(0), pb.pop(0)
            continue
        break
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if x is y or (isinstance(x, Atom) and isinstance(y, Atom) and x.name == y.name and x.kind == y.kind):
            pa.pop(), pb.pop()
            continue
        if isinstance(x, str) and isinstance(y, str):
            n = 0
            while n < len(x) and n < len(y) and x[-1 - n] == y[-1 - n]:
                n += 1
            if n == 0 or (n < len(x) and n < len(y)):
                return False
            pa[-1] = x[:-n]
            pb[-1] = y[:-n]
            if not pa[-1]:
                pa.pop()
            if not pb[-1]:
                pb.pop()
            continue
        break
    if not pa and not pb:
        return True
    if not pa or not pb:
        rest = pa or pb
        if any(isinstance(p, str) or p.kind not in ("content", "plain") for p in rest):
            return False
        return Ctl.oracle.decide(("empty", tuple(rest)))
    # first differing parts
    for s, t in ((pa, pb), (pb, pa)):
        x = s[0]
        if isinstance(x, Atom):
            fc = _first_chars(x)
            y = t[0]
            if isinstance(y, str):
                if fc is not None and y[0] not in fc:
                    return False
                if x.generic and x.kind in ("name", "var"):
                    return False
                if x.kind == "txt" and (x.generic or y[0] in _TXT_EXCL):
                    return False
                if x.kind == "plain" and len(s) == 1 and any(c in _PLAIN_EXCL for p in t if isinstance(p, str) for c in p):
                    return False
                if x.kind in ("dec", "pdec") and len(s) == 1 and len(t) == 1 and not y.lstrip("-").isdigit():
                    return False
            elif isinstance(y, Atom):
                fy = _first_chars(y)
                if fc is not None and fy is not None and not (fc & fy):
                    return False
                if x.generic and y.generic and x.kind in ("name", "var", "txt") and y.kind in ("name", "var", "txt"):
                    return False
    k = sorted([repr(pa), repr(pb)])
    return Ctl.oracle.decide(("streq", k[0], k[1]), lambda: _rep(pa) == _rep(pb))


def _rep(parts):
    return "".join(p if isinstance(p, str) else p.rep for p in parts)


def _rep_int(name):
    r = ATOM_REPS.get(name)
    if r is None:
        raise Undecided(f"no representative for {name}")
    return r


ATOM_REPS = {}


def rep_answer(key, thunk):
    """The answer to an open question when every atom has the value of its representative."""
    if thunk is not None:
        return thunk()
    k = key[0]
    if k == "nonempty":
        return bool(_rep(key[1]))
    if k == "empty":
        return not _rep(key[1])
    if k == "startswith":
        return _rep(key[1]).startswith(key[2])
    if k == "endswith":
        return _rep(key[1]).endswith(key[2])
    if k == "contains":
        return (key[2] if isinstance(key[2], str) else _rep(key[2])) in _rep(key[1])
    if k == "isdigit":
        return _rep(key[1]).isdigit()
    if k == "isident":
        return _rep(key[1]).isidentifier()
    if k == "isspace":
        return _rep(key[1]).isspace()
    if k == "strlt":
        return _rep(key[1]) < _rep(key[2])
    raise Undecided(f"open questions left: {key}")


def mkint(c, terms):
    terms = {k: v for k, v in terms.items() if v != 0}
    if not terms:
        return c
    return SInt(c, tuple(sorted(terms.items())))


LINEAR = {}  # the form behind the decimal text of a linear form


class SInt:
    """Linear integer form."""

    __slots__ = ("c", "t")

    def __init__(self, c, t):
        self.c = c
        self.t = t

    @staticmethod
    def var(name):
        return SInt(0, ((name, 1),))

    def __repr__(self):
        s = "+".join((k if v == 1 else f"{v}*{k}") for k, v in self.t)
        return f"⟨{s}{'%+d' % self.c if self.c else ''}⟩"

    def __hash__(self):
        return hash((self.c, self.t))

    def _lin(self, o, k):
        d = dict(self.t)
        if isinstance(o, SInt):
            for a, b in o.t:
                d[a] = d.get(a, 0) + k * b
            return mkint(self.c + k * o.c, d)
        if isinstance(o, bool) or isinstance(o, int):
            return mkint(self.c + k * int(o), d)
        raise Undecided(f"arithmetic with {type(o).__name__}")

    def __add__(self, o):
        return self._lin(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._lin(o, -1)

    def __rsub__(self, o):
        return (-self)._lin(o, 1)

    def __neg__(self):
        return mkint(-self.c, {k: -v for k, v in self.t})

    def __mul__(self, o):
        if isinstance(o, int):
            return mkint(self.c * o, {k: v * o for k, v in self.t})
        raise Undecided("nonlinear arithmetic")

    __rmul__ = __mul__

    def _unk(self, op, o):
        return SInt(0, ((f"{op}({self!r},{o!r})", 1),))

    def __mod__(self, o):
        return self._unk("mod", o)

    def __floordiv__(self, o):
        return self._unk("div", o)

    def __truediv__(self, o):
        return self._unk("fdiv", o)

    def __and__(self, o):
        return self._unk("and", o)

    def __rshift__(self, o):
        return self._unk("shr", o)

    def __lshift__(self, o):
        return self._unk("shl", o)

    def __or__(self, o):
        return self._unk("or", o)

    def __eq__(self, o):
        if isinstance(o, float) or (not isinstance(o, (int, SInt))):
            if isinstance(o, float):
                return Ctl.oracle.decide(("inteq", repr(self), repr(o)))
            return False
        d = self - o
        if isinstance(d, int):
            return d == 0
        return Ctl.oracle.intq("eq", d)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        d = self - o
        if isinstance(d, int):
            return d < 0
        return Ctl.oracle.intq("lt", d)

    def __ge__(self, o):
        return not self.__lt__(o)

    def __gt__(self, o):
        d = o - self
        if isinstance(d, int):
            return d < 0
        return Ctl.oracle.intq("lt", d)

    def __le__(self, o):
        return not self.__gt__(o)

    def __bool__(self):
        return not self.__eq__(0)

    def __index__(self):
        raise Undecided("unknown integer used as an index")

    def to_str(self):
        if not self.c and len(self.t) == 1 and self.t[0][1] == 1:
            return AStr((Atom(self.t[0][0], "dec", False),))
        LINEAR[f"dec:{self!r}"] = self
        return AStr((Atom(f"dec:{self!r}", "dec", False),))
