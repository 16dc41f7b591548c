from __future__ import annotations
import collections, itertools, functools, operator, copy, re, enum, dataclasses, contextlib, typing, bisect, heapq, abc, logging, string, math, textwrap, types, warnings, io, os.path
from collections import OrderedDict, Counter, defaultdict, deque, namedtuple, ChainMap
from dataclasses import dataclass, field, replace
from functools import reduce, partial, lru_cache, cached_property, wraps, singledispatch, total_ordering
from itertools import chain, islice, takewhile, dropwhile, groupby, count, accumulate, product, zip_longest, pairwise, starmap, tee, repeat, cycle, permutations, combinations
from operator import itemgetter, attrgetter, methodcaller
from typing import NamedTuple, Protocol, TypeVar, Generic, overload, cast, Final, ClassVar, Iterable, Iterator, Callable, Literal, TypedDict, Optional, Union, Any

T = TypeVar("T")
F: Final = 3
NT = namedtuple("NT", ["a", "b"])
NTd = namedtuple("NTd", "a b c", defaults=(5,))
logger = logging.getLogger(__name__)

class P(NamedTuple):
    x: int
    y: int = 2
    def s(self): return self.x + self.y

@dataclass
class D:
    a: int
    b: list[int] = field(default_factory=list)
    c: str = "z"
    def __post_init__(self): self.d = self.a * 2

@dataclass(frozen=True, order=True)
class E:
    a: int
    b: int = 0

@dataclass(slots=True)
class Sl:
    a: int
    b: int | None = None

class Color(enum.Enum):
    R = 1
    G = "g"
    def lab(self): return self.name + str(self.value)
    @classmethod
    def of(cls, v): return cls(v)

class IE(enum.IntEnum):
    A = 1
    B = 2

class Fl(enum.Flag):
    A = enum.auto()
    B = enum.auto()

class SE(str, enum.Enum):
    A = "a"

class TD(TypedDict):
    a: int

class Base(abc.ABC):
    reg: ClassVar[dict] = {}
    def __init_subclass__(cls, **kw): Base.reg[cls.__name__] = cls
    @abc.abstractmethod
    def f(self): ...
    @property
    def p(self): return self._p if hasattr(self, "_p") else 0
    @p.setter
    def p(self, v): self._p = v
    @staticmethod
    def st(x): return x + 1
    @classmethod
    def cm(cls, x): return (cls.__name__, x)
    def __eq__(self, o): return type(self) is type(o)
    def __hash__(self): return 1
    def __lt__(self, o): return True
    def __len__(self): return 3
    def __getitem__(self, i): return i
    def __contains__(self, x): return x == 7
    def __call__(self, *a, **k): return (a, sorted(k.items()))
    def __iter__(self): return iter([1, 2])
    def __bool__(self): return False
    def __enter__(self): return 5
    def __exit__(self, *a): return True
    def __repr__(self): return "B!"
    def __add__(self, o): return ("add", o)
    def __radd__(self, o): return ("radd", o)
    def __getattr__(self, n):
        if n.startswith("zz"): return n
        raise AttributeError(n)

class Sub(Base):
    def f(self): return super().st(4)
    @cached_property
    def cp(self): return [1]

def t_nt(): a = NT(1, 2); return a.a, a._replace(b=4).b, a == (1, 2), a._asdict(), NT._fields, NTd(1, 2).c, NT(*[3, 4]), repr(a)
def t_ntc(): p = P(1); x, y = p; return p.s(), x, y, p[1], p._replace(x=9), P(y=3, x=1)
def t_dc():
    d = D(3); e = D(3); d.b.append(1)
    return d.d, d == e, d.b, e.b, repr(d), replace(d, a=7).a, dataclasses.asdict(e), [f.name for f in dataclasses.fields(d)]
def t_fr():
    try: E(1).a = 2
    except dataclasses.FrozenInstanceError: r = 1
    except AttributeError: r = 2
    return r, E(1) < E(2), {E(1): 4}[E(1)], sorted([E(2), E(1)]), Sl(1).b
def t_enum(): return Color.R.lab(), Color.of("g").name, [c.name for c in Color], Color["R"] is Color.R, Color.R in (Color.R,), IE.A < IE.B, IE.B + 1, Fl.A | Fl.B, bool(Fl.A & Fl.B), SE.A == "a", len(Color), isinstance(Color.R, Color), Color.__members__.keys() if 0 else 1, {Color.R: 1}[Color.R]
def t_abc():
    s = Sub(); s.p = 4
    with s as v: raise ValueError
    return s.f(), s.p, Sub.cm(2), s == Sub(), len(s), s[5], 7 in s, s(1, k=2), list(s), bool(s), v, repr(s), s + 1, 1 + s, s.zzz, hasattr(s, "q"), s.cp is s.cp, list(Base.reg), getattr(s, "q", 3), callable(s), issubclass(Sub, Base)
def t_match(x=None):
    out = []
    for x in [1, "a", [1, 2], [1, 2, 3], {"k": 5}, P(1, 2), D(4), None, (1,), Color.R, True, 2.5, -1, []]:
        match x:
            case None: out.append("none")
            case True: out.append("true")
            case Color.R: out.append("R")
            case P(x=1, y=b): out.append(("P", b))
            case D(a=q) if q > 3: out.append(("D", q))
            case {"k": v, **rest}: out.append((v, rest))
            case [a]: out.append(("one", a))
            case [a, *r] if len(r) > 1: out.append((a, r))
            case (1 | 2) as w: out.append(w)
            case str() as s: out.append(s)
            case [1, b]: out.append(("12", b))
            case -1: out.append("neg")
            case float(f): out.append(f)
            case _: out.append("else")
    return out
def t_walrus(): return [y for x in range(5) if (y := x * 2) > 3], (n := 5) + n
def t_gen():
    def g(n):
        try:
            for i in range(n):
                r = yield i
                if r: yield ("got", r)
        finally: log.append("fin")
        return 7
    log = []
    def d(): v = yield from g(2); yield v
    it = g(3); a = next(it); b = it.send("x"); it.close()
    return list(d()), a, b, log, sum(x for x in g(4)), next(iter([]), "def"), any(x > 1 for x in g(3)), max((x for x in g(3)), default=0)
def t_cl():
    n = 0
    def inc(k=1, *, z=2, **kw):
        nonlocal n
        n += k + z
        return n
    fs = [lambda i=i: i * n for i in range(3)]
    inc(); inc(2, z=0)
    p = partial(inc, 5); p()
    return n, [f() for f in fs], inc.__name__
def t_it():
    a = [3, 1, 2]
    return (list(chain(a, "ab")), list(chain.from_iterable([[1], [2]])), list(islice(count(3), 2)), list(takewhile(lambda x: x > 2, a)), list(dropwhile(lambda x: x > 2, a)), [(k, list(g)) for k, g in groupby([1, 1, 2])], list(accumulate(a)), list(product([1, 2], repeat=2)), list(zip_longest([1], [2, 3], fillvalue=0)), list(pairwise(a)), list(starmap(pow, [(2, 3)])), list(repeat(1, 2)), list(permutations([1, 2])), list(combinations(a, 2)), reduce(lambda x, y: x + y, a, 1), sorted(a, key=lambda x: -x), sorted(["b", "A"], key=str.lower), min(a, key=lambda x: -x), list(map(operator.add, [1], [2])), list(filter(None, [0, 1])), list(enumerate(a, 1)), list(reversed(a)), dict(zip("ab", a)), sum([[1], [2]], []), list(zip(*[(1, 2), (3, 4)])), all([]), divmod(7, 2), abs(-3), round(2.5), pow(2, 3), hex(10), ord("a"), chr(98), isinstance(1, (str, int)), isinstance(1, int | str), type(1) is int, list(range(5, 0, -2)), tuple(x for x in a), set(a) == {1, 2, 3}, frozenset(a) & {1}, itemgetter(1)(a), itemgetter(0, 2)(a), attrgetter("x")(P(4)), methodcaller("upper")("a"), a[::-1], a[-2:], a[:1], list(tee(a)[0]))
def t_coll():
    d = defaultdict(list); d["a"].append(1); c = Counter("aab"); q = deque([1, 2, 3], maxlen=3); q.append(4); q.appendleft(0); o = OrderedDict(); o["x"] = 1; o["y"] = 2; pass
    return dict(d), c["a"], c.most_common(1), list(q), q.popleft(), q.pop(), list(o), o.popitem(last=False), c["zz"], "zz" in d, d.get("q"), {**{"a": 1}, "b": 2}, {"a": 1} | {"b": 2}, dict(a=1), dict.fromkeys("ab", 0), {1, 2} - {1}, {1} | {2}, {1} ^ {1, 2}, {1} <= {1, 2}, [*range(2), 5], (*"ab",)
def t_dict():
    d = {"a": 1, "b": 2}
    d.setdefault("c", []).append(4); d.update(e=5); x = d.pop("a"); y = d.pop("zz", None); del d["b"]
    k = list(d.keys()); i = list(d.items()); d2 = d.copy(); d2.clear()
    a, *b = [1, 2, 3]; (c, e), f = (4, 5), 6; *g, h = "xyz"
    return d, x, y, k, i, d2, a, b, c, e, f, g, h, d == dict(d), "c" in d, len(d), {v: k for k, v in {"q": 1}.items()}, next(iter(d)), list(reversed({"a": 1, "b": 2})), d.keys() - {"c"}, d.keys() & {"c"}
def t_str():
    s = "  Abc def\n"
    return (s.strip(), s.split(), "a,b".split(","), "a.b.c".rsplit(".", 1), "k=v=w".partition("="), "k=v=w".rpartition("="), "x\ny\r\nz".splitlines(), "x\ny".splitlines(True), "abc".removeprefix("a"), "abc".removesuffix("c"), "abc".startswith(("a", "b")), "abc".find("c"), "abc".index("b"), "aXa".replace("a", "b", 1), "abc".translate(str.maketrans("ab", "xy")), "abc".translate({ord("a"): None}), "-".join(["a", "b"]), "5".zfill(3), "a".ljust(3) + "|", "a".rjust(3), "a".center(5, "*"), "{} {b} {0!r}".format(1, b=2) if 0 else "{} {b}".format(1, b=2), "%s-%d %r" % ("a", 3, "q"), f"{3:>4}|{3.14159:.2f}|{'a'!r}|{5:03d}|{255:x}|{'a':<3}|{1=}" if 0 else f"{3:>4}|{3.14159:.2f}|{'a'!r}|{5:03d}|{255:x}|{'a':<3}|", "a".isalpha(), "1".isdigit(), "a_1".isidentifier(), " ".isspace(), "aB".swapcase(), "abc".count("b"), "ab" * 2, "b" in "abc", "abc" < "abd", "é".encode().decode(), "abc"[::-1], "aXbX".rstrip("X"), "a\tb".expandtabs(2), "ab".title(), "ß".casefold(), "x".join("abc"), repr("it's"), "a" "b", "Ab".islower(), textwrap.dedent("  a\n  b"), textwrap.indent("a", "  "), string.ascii_lowercase[:3])
def t_re(): 
    R = re.compile(r"(?P<n>\w+)=(\d+)"); m = R.match("ab=12")
    return m.group("n"), m.groups(), m.group(2), m.start(2), m.span(), re.sub(r"\d", lambda m: m.group(0) * 2, "a1b2"), re.sub("a", "b", "aa", count=1), re.split(r"[,;]", "a,b;c"), re.findall(r"\d+", "1 22"), [m.start() for m in re.finditer("a", "aba")], bool(re.fullmatch("a+", "aaa")), re.escape("a.b"), R.search("zz"), re.compile("a", re.I).match("A").end()
def t_exc():
    out = []
    class X(ValueError):
        def __init__(self, a, *, b=1): super().__init__(a); self.b = b
    try:
        try: raise X("m", b=3) from KeyError("k")
        except (KeyError, ValueError) as e: out += [str(e), e.b, type(e.__cause__).__name__, e.args]; raise
        else: out.append("no")
        finally: out.append("fin")
    except X as e2: out.append("x2")
    try: [][0]
    except IndexError: out.append("ie")
    try: {}["a"]
    except KeyError as e: out.append(e.args[0])
    try: int("x")
    except ValueError: out.append("ve")
    try: None.a
    except AttributeError: out.append("ae")
    try: assert False, "msg"
    except AssertionError as e: out.append(str(e))
    try: 1 / 0
    except ZeroDivisionError: out.append("zd")
    try: a, b = [1]
    except ValueError: out.append("unp")
    for i in range(3):
        try:
            if i == 1: continue
            if i == 2: break
        finally: out.append(i)
    else: out.append("noelse")
    for i in []: pass
    else: out.append("else")
    with contextlib.suppress(KeyError): {}["x"]
    @contextlib.contextmanager
    def cm(v):
        out.append("in")
        try: yield v + 1
        finally: out.append("out")
    with cm(1) as a, cm(2) as b: out.append((a, b))
    pass
    with contextlib.nullcontext(3) as n: out.append(n)
    return out
def t_deco():
    calls = []
    def deco(f):
        @wraps(f)
        def w(*a, **k): calls.append(f.__name__); return f(*a, **k)
        return w
    def dp(n): return lambda f: (lambda *a: f(*a) + n)
    @deco
    def f(x): return x
    @dp(3)
    def g(x): return x
    @lru_cache(maxsize=None)
    def h(n): return n if n < 2 else h(n - 1) + h(n - 2)
    @functools.cache
    def h2(n): return n
    return f(1), g(1), h(10), h2(3), calls, f.__name__
@total_ordering
class TO:
    def __init__(self, v): self.v = v
    def __eq__(self, o): return self.v == o.v
    def __lt__(self, o): return self.v < o.v
def t_misc():
    l = [1, 2, 3, 4]; l[1:2] = [9, 9]; del l[0]; l.insert(0, 7); l.remove(9); l.extend((1,)); l.sort(reverse=True); l.reverse(); m = l.copy(); m += [1]; m *= 2
    h = []; heapq.heappush(h, 3); heapq.heappush(h, 1)
    x = y = 3; x, y = y + 1, x
    o = types.SimpleNamespace(a=1); setattr(o, "b", 2); delattr(o, "a")
    c = copy.copy([1, [2]]); dd = copy.deepcopy({"a": [1]})
    return 1, l, m, heapq.heappop(h), bisect.bisect_left([1, 3], 2), x, y, vars(o), c, dd, 1 if 0 else 2, 1 < 2 < 3, not 0, ~5, 5 >> 1, 1 << 3, 6 & 3, 6 | 1, 6 ^ 2, 7 // 2, -7 // 2, -7 % 3, 2 ** 5, 1_000, 0x1F, 1e3, True + 1, None is None, [] or "d", 0 and 1, TO(1) <= TO(2), max(TO(1), TO(3), key=lambda t: t.v).v, cast(int, 3), math.floor(2.7), math.inf > 3, id(o) == id(o), type("X", (), {"a": 1}).a, bytes([65]).decode(), int("0x1f", 16), int("12"), int("0b11", 0), float("1.5"), str(1.0), bool([]), list("ab"), tuple([1]), isinstance([], list), hash("a") == hash("a"), os.path.basename("/a/b"), os.path.join("a", "b"), eval is eval, __name__[-4:], ... is Ellipsis
def t_types():
    l: list[int] = []; x: Optional[int]; type_ = dict[str, int]
    mp = types.MappingProxyType({"a": 1})
    buf = io.StringIO(); buf.write("ab"); print("c", end="", file=buf)
    return l, type_, mp["a"], buf.getvalue(), collections.abc.Mapping is not None if hasattr(collections, "abc") else 0, isinstance({}, collections.abc.Mapping), isinstance([], collections.abc.Sequence), [*map(str, (1, 2))], list(map(lambda p: p[0], [(1, 2)])), sorted([(2, "a"), (1, "b")], key=itemgetter(0), reverse=True)
def t_inner():
    class A:
        k = 1
        v = [k for _ in range(2)] if 0 else [1]
        __slots__ = ("a",)
        def __init__(self): self.a = 1
    class B(A):
        def __init__(self): super().__init__(); self.z = 5
        def __eq__(self, o): return NotImplemented
        def __setattr__(self, n, v): object.__setattr__(self, n, v)
        def __str__(self): return "S"
        def __format__(self, s): return "F" + s
        def __int__(self): return 4
        def __index__(self): return 1
        def __ne__(self, o): return True
        def __reversed__(self): return iter("ab")
        def __delitem__(self, i): self.z = i
        def __setitem__(self, i, v): self.z = (i, v)
    b = B(); b[1] = 2; w = b.z; del b[4]
    return b.a, b.z, w, str(b), f"{b:x}", int(b), [5, 6][b], list(reversed(b)), b != b, b.__class__.__name__, B.__mro__[1] is A, B.__bases__ == (A,), vars(b).get("z"), isinstance(b, A), A.k, getattr(b, "a"), "z" in b.__dict__, B.__init__ is not A.__init__, b.__class__ is B, type(b).__qualname__[-1:]
async def noop(): pass
def t_glob():
    global GG
    GG = 4
    return GG, globals()["F"], locals() if 0 else 1, (lambda *a, k=1, **kw: (a, k, kw))(1, 2, z=3), (lambda a, /, b, *, c: a + b + c)(1, b=2, c=3), [x for x in range(3) for y in range(x) if y], {x for x in "aab"} == {"a", "b"}, {k: v for k, v in zip("ab", (1, 2))}, [[j for j in range(i)] for i in range(3)], sum(1 for _ in range(3)), "a" if True else "b", *(1, 2)
