"""A model of the Pygments runtime a lexer class of the package is built on, and the analysis of its rule tables (C17).

Modelled after pygments/lexer.py: Lexer (options and preprocessing), RegexLexer (tables, states, the matching loop), include,
inherit, words, combined, default, bygroups, using(this), token types. Regular expressions are read as syntax trees (re._parser).
"""
from __future__ import annotations

import re
import sys
import warnings

from .engine import Cls, Native, Obj, PyExc
from .values import Undecided

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    try:
        from re import _constants as C
        from re import _parser as sre
    except ImportError:
        import sre_constants as C
        import sre_parse as sre


class Loop(Exception):
    """The matching loop does not end."""


class Lost(Exception):
    pass


def install(I):
    def cls(name, bases=(), **m):
        c = Cls(name, list(bases), {}, "pygments", name)
        for k, v in m.items():
            c.ns[k] = Native(v, k)
        return c

    # -------------------------------------------------------- token types
    kinds = {}

    def kind(path):
        if path not in kinds:
            o = Obj(Tok)
            o.d["path"] = path
            kinds[path] = o
        return kinds[path]

    def sub(self, nm):
        if nm.startswith("__") or not nm[:1].isupper():
            raise PyExc(AttributeError(nm))
        return kind(self.d["path"] + (nm,))

    Tok = cls("_TokenType")
    Tok.ns["__getattr__"] = Native(sub, "__getattr__")
    Tok.ns["__contains__"] = Native(lambda s, o: s is o or (isinstance(o, Obj) and o.cls is Tok and o.d["path"][: len(s.d["path"])] == s.d["path"]), "__contains__")
    Tok.ns["split"] = Native(lambda s: [kind(s.d["path"][:k]) for k in range(len(s.d["path"]) + 1)], "split")
    Token = kind(())
    names = {"Token": Token}
    for n in ("Text", "Escape", "Error", "Other", "Keyword", "Name", "Literal", "Punctuation", "Operator", "Comment", "Generic"):
        names[n] = kind((n,))
    names["Whitespace"] = kind(("Text", "Whitespace"))
    names["String"] = kind(("Literal", "String"))
    names["Number"] = kind(("Literal", "Number"))
    names["_TokenType"] = Tok
    names["is_token_subtype"] = Native(lambda t, o: t.d["path"][: len(o.d["path"])] == o.d["path"], "is_token_subtype")
    WS, ERR = names["Whitespace"], names["Error"]

    # -------------------------------------------------------- table pieces
    def piece(name, *fields):
        c = cls(name)

        def init(self, *a, **k):
            d = dict(zip(fields, a))
            d.update(k)
            self.d.update(d)

        c.ns["__init__"] = Native(init, "__init__")
        return c

    Include = piece("include", "state")
    Default = piece("default", "state")
    Inherit = cls("_inherit")
    inherit = Obj(Inherit)
    Words = cls("words")

    def w_init(self, words, prefix="", suffix=""):
        self.d.update(words=list(I.iterate(words)), prefix=prefix, suffix=suffix)

    Words.ns["__init__"] = Native(w_init, "__init__")
    Combined = cls("combined")

    def c_init(self, *a):
        self.d["states"] = tuple(a)

    Combined.ns["__init__"] = Native(c_init, "__init__")
    This = cls("_This")
    this = Obj(This)

    def is_tok(o):
        return isinstance(o, Obj) and o.cls is Tok

    def run_action(action, lexer, m, ctx=None):
        """The tokens one rule gives for its match."""
        if is_tok(action):
            yield m.start(), action, m.group()
        elif action is not None:
            r = I.call(action, [lexer, m] + ([ctx] if ctx is not None else []), {})
            if r is not None:
                for t in I.iterate(r):
                    yield tuple(I.iterate(t))

    def bygroups(*actions):
        def callback(lexer, match, ctx=None):
            for i, a in enumerate(actions):
                if a is None:
                    continue
                data = match.group(i + 1)
                if is_tok(a):
                    if data:
                        yield match.start(i + 1), a, data
                elif data is not None:
                    yield from run_action(a, lexer, Pseudo(match.start(i + 1), data))

        n = Native(callback, "bygroups")
        n.state = ("bygroups", actions)
        return n

    class Pseudo:
        def __init__(self, start, text):
            self._s, self._t = start, text

        def start(self, arg=None):
            return self._s

        def end(self, arg=None):
            return self._s + len(self._t)

        def group(self, arg=None):
            if not arg:
                return self._t
            raise PyExc(IndexError("No such group"))

        def groups(self):
            return (self._t,)

        def groupdict(self):
            return {}

    I.host_attrs[Pseudo] = {"start", "end", "group", "groups", "groupdict"}

    def using(other, **kw):
        if other is not this:
            raise Undecided("using() another lexer")
        st = kw.pop("state", None)
        stack = ("root",) if st is None else tuple(st) if isinstance(st, (list, tuple)) else ("root", st)

        def callback(lexer, match, ctx=None):
            lx = lexer if not kw else I.call(lexer.cls, [], dict(lexer.d.get("options", {}), **kw))
            s = match.start()
            for i, t, v in I.iterate(I.call_method(lx, "get_tokens_unprocessed", [match.group(), stack])):
                yield i + s, t, v

        n = Native(callback, "using")
        n.state = ("using", stack)
        return n

    # -------------------------------------------------------- lexers
    def opt(conv):
        def get(options, name, default=None, *a):
            return conv(options.get(name, default))

        return get

    def to_bool(v):
        if isinstance(v, str):
            if v.lower() in ("1", "yes", "true", "on"):
                return True
            if v.lower() in ("0", "no", "false", "off"):
                return False
            raise PyExc(ValueError("Invalid value"))
        return bool(v)

    gb, gi = opt(to_bool), opt(int)
    Lexer = cls("Lexer")

    def lx_init(self, **options):
        self.d.update(options=options, stripnl=gb(options, "stripnl", True), stripall=gb(options, "stripall", False), ensurenl=gb(options, "ensurenl", True),
                      tabsize=gi(options, "tabsize", 0), encoding=options.get("inencoding") or options.get("encoding", "guess"), filters=[])
        if options.get("filters"):
            raise Undecided("filters given to a lexer")

    def add_filter(self, *a, **k):
        raise Undecided("a lexer with filters")

    def preprocess(self, text):
        if not isinstance(text, str):
            raise Undecided("text as bytes")
        g = lambda n: I.getattr(self, n)
        return prepare(text, g("stripall"), g("stripnl"), g("tabsize"), g("ensurenl"))

    def get_tokens(self, text, unfiltered=False):
        text = I.call_method(self, "_preprocess_lexer_input", [text])

        def stream():
            for x in I.iterate(I.call_method(self, "get_tokens_unprocessed", [text])):
                _i, t, v = I.iterate(x)
                yield t, v

        return stream()

    def no_tokens(self, text):
        raise PyExc(NotImplementedError())

    for n, f in dict(__init__=lx_init, add_filter=add_filter, _preprocess_lexer_input=preprocess, get_tokens=get_tokens, get_tokens_unprocessed=no_tokens).items():
        Lexer.ns[n] = Native(f, n)
    Lexer.ns.update({"name": None, "aliases": [], "filenames": [], "alias_filenames": [], "mimetypes": [], "priority": 0, "url": None})
    RegexLexer = cls("RegexLexer", [Lexer])
    RegexLexer.ns.update({"flags": re.MULTILINE, "tokens": {}})

    def gtu(self, text, stack=("root",)):
        T = Table.of(I, self.cls, M)
        return T.run(text, tuple(I.iterate(stack)), lambda a, m: run_action(a, self, m))

    RegexLexer.ns["get_tokens_unprocessed"] = Native(gtu, "get_tokens_unprocessed")
    undecided = lambda what: Native(lambda *a, **k: (_ for _ in ()).throw(Undecided(what)), what)
    M = dict(Tok=Tok, Include=Include, Default=Default, Inherit=Inherit, inherit=inherit, Words=Words, Combined=Combined, is_tok=is_tok, WS=WS, ERR=ERR, Lexer=Lexer, RegexLexer=RegexLexer)
    lexer = {"Lexer": Lexer, "RegexLexer": RegexLexer, "include": Include, "inherit": inherit, "words": Words, "combined": Combined, "default": Default, "bygroups": Native(bygroups, "bygroups"),
             "using": Native(using, "using"), "this": this, "line_re": re.compile(".*?\n"), "ExtendedRegexLexer": undecided("ExtendedRegexLexer"), "DelegatingLexer": undecided("DelegatingLexer"), "do_insertions": undecided("do_insertions")}
    I.native_modules["pygments"] = lambda I: {}
    I.native_modules["pygments.token"] = lambda I: dict(names)
    I.native_modules["pygments.lexer"] = lambda I: dict(lexer)
    I.native_modules["pygments.util"] = lambda I: {"get_bool_opt": Native(gb, "get_bool_opt"), "get_int_opt": Native(gi, "get_int_opt")}
    return M


def prepare(text, stripall, stripnl, tabsize, ensurenl):
    if text.startswith("\ufeff"):
        text = text[1:]
    text = text.replace("\r\n", "\n").replace("\r", "\n")
    if stripall:
        text = text.strip()
    elif stripnl:
        text = text.strip("\n")
    if tabsize > 0:
        text = text.expandtabs(tabsize)
    if ensurenl and not text.endswith("\n"):
        text += "\n"
    return text


class Rule:
    __slots__ = ("state", "index", "pattern", "flags", "rx", "action", "target", "tree", "node")

    def __str__(self):
        return f"state {self.state!r}, pattern {self.pattern!r}"


class Table:
    """The processed rule tables of a lexer class."""

    _cache = {}

    @classmethod
    def of(cls, I, c, M):
        if id(c) not in cls._cache or cls._cache[id(c)].cls is not c:
            cls._cache[id(c)] = cls(I, c, M)
        return cls._cache[id(c)]

    def __init__(self, I, c, M):
        self.I, self.cls, self.M = I, c, M
        self.flags = int(I.getattr(c, "flags"))
        tokens, inheritable = {}, {}
        for b in c.mro:
            toks = b.ns.get("tokens", {}) if isinstance(b, Cls) else {}
            for state, items in toks.items():
                items = list(items)
                cur = tokens.get(state)
                if cur is None:
                    tokens[state] = items
                    if M["inherit"] in items:
                        inheritable[state] = items.index(M["inherit"])
                    continue
                k = inheritable.pop(state, None)
                if k is None:
                    continue
                cur[k : k + 1] = items
                if M["inherit"] in items:
                    inheritable[state] = k + items.index(M["inherit"])
        self.raw = tokens
        self.states = {}
        self.tmp = 0
        for s in list(tokens):
            self.state(s)

    def bad(self, what):
        raise PyExc(AssertionError(what))

    def new_state(self, t):
        if isinstance(t, str):
            if t == "#pop":
                return -1
            if t in self.raw:
                return (t,)
            if t == "#push":
                return t
            if t[:5] == "#pop:":
                return -int(t[5:])
            self.bad(f"unknown new state {t!r}")
        if isinstance(t, Obj) and t.cls is self.M["Combined"]:
            nm = f"_tmp_{self.tmp}"
            self.tmp += 1
            self.states[nm] = [r for s in t.d["states"] for r in self.state(s)]
            return (nm,)
        if isinstance(t, tuple):
            for s in t:
                if s not in self.raw and s not in ("#pop", "#push"):
                    self.bad(f"unknown new state {s}")
            return t
        self.bad(f"unknown new state def {t!r}")

    def state(self, s):
        if s in self.states:
            return self.states[s]
        if s not in self.raw:
            raise PyExc(KeyError(s))
        out = self.states[s] = []
        M = self.M
        for k, d in enumerate(self.raw[s]):
            if isinstance(d, Obj) and d.cls is M["Include"]:
                out.extend(self.state(d.d["state"]))
                continue
            if isinstance(d, Obj) and d.cls is M["Inherit"]:
                continue
            r = Rule()
            r.state, r.index = s, k
            if isinstance(d, Obj) and d.cls is M["Default"]:
                r.pattern, r.action, r.flags = "", None, 0
                r.target = self.new_state(d.d["state"])
            else:
                if not isinstance(d, tuple):
                    self.bad(f"wrong rule def {d!r}")
                p = d[0]
                if isinstance(p, Obj) and p.cls is M["Words"]:
                    ws = sorted(p.d["words"], key=lambda w: (-len(w), w))
                    p = p.d["prefix"] + "(" + "|".join(map(re.escape, ws)) + ")" + p.d["suffix"]
                if not isinstance(p, str):
                    raise Undecided(f"a pattern that is not text: {p!r}")
                r.pattern, r.action, r.flags = p, d[1], self.flags
                r.target = self.new_state(d[2]) if len(d) > 2 else None
            try:
                r.rx = re.compile(r.pattern, r.flags)
                r.tree = sre.parse(r.pattern, r.flags)
            except re.error as e:
                self.bad(f"uncompilable regex {r.pattern!r}: {e}")
            out.append(r)
        return out

    def move(self, stack, target):
        """The stack (a list) after a transition, as the runtime does it."""
        if target is None:
            return
        if isinstance(target, tuple):
            for s in target:
                if s == "#pop":
                    if len(stack) > 1:
                        stack.pop()
                elif s == "#push":
                    stack.append(stack[-1])
                else:
                    stack.append(s)
        elif isinstance(target, int):
            if abs(target) >= len(stack):
                del stack[1:]
            else:
                del stack[target:]
        else:
            stack.append(stack[-1])

    def run(self, text, stack=("root",), act=None, trace=None):
        """The matching loop. Yields (position, type, value)."""
        M = self.M
        pos = 0
        st = list(stack)
        rules = self.states[st[-1]]
        still = 0
        n = len(text)
        while True:
            for r in rules:
                m = r.rx.match(text, pos)
                if m:
                    if trace is not None:
                        trace.append(r)
                    a = r.action
                    if a is not None:
                        if M["is_tok"](a):
                            yield pos, a, m.group()
                        elif act is None:
                            raise Undecided("a rule with a function")
                        else:
                            yield from act(a, m)
                    if m.end() == pos:
                        still += 1
                        if still > 60:
                            raise Loop(r)
                    else:
                        still = 0
                    pos = m.end()
                    if r.target is not None:
                        self.move(st, r.target)
                        rules = self.states[st[-1]]
                    break
            else:
                if pos >= n:
                    return
                if text[pos] == "\n":
                    st = ["root"]
                    rules = self.states["root"]
                    yield pos, M["WS"], "\n"
                else:
                    if trace is not None:
                        trace.append((st[-1], text[pos]))
                    yield pos, M["ERR"], text[pos]
                pos += 1
                still = 0

    # ---------------------------------------------------------------- analysis
    def reachable(self):
        """States that can be on top of the stack (over-approximation: every rule may match)."""
        seen, todo = set(), ["root"]
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            for r in self.states[s]:
                if isinstance(r.target, tuple):
                    todo += [t for t in r.target if t not in ("#pop", "#push")]
        return seen


# ------------------------------------------------------------------------------------------ regular expressions as trees

_REP = (C.MAX_REPEAT, C.MIN_REPEAT) + ((C.POSSESSIVE_REPEAT,) if hasattr(C, "POSSESSIVE_REPEAT") else ())
ALL = "".join(map(chr, range(sys.maxunicode + 1)))


def can_be_empty(tree):
    """May the whole match be empty at some position? (over-approximation: assertions hold)"""
    return tree.getwidth()[0] == 0


def max_width(tree):
    return tree.getwidth()[1]


def always_empty_ok(node):
    """Matches (at least) the empty text at every position."""
    op, av = node
    if op in _REP:
        return av[0] == 0 or all(always_empty_ok(x) for x in av[2])
    if op is C.SUBPATTERN:
        return all(always_empty_ok(x) for x in av[3])
    if op is C.BRANCH:
        return any(all(always_empty_ok(x) for x in b) for b in av[1])
    if getattr(C, "ATOMIC_GROUP", None) is op:
        return all(always_empty_ok(x) for x in av)
    return False


def charset(node, flags):
    """The set of single characters of a one-character node as a character class of re, or None."""
    op, av = node
    if op is C.ANY:
        return "[\\s\\S]" if flags & re.DOTALL else "[^\\n]"
    if op is C.LITERAL:
        return "[" + lit(av) + "]"
    if op is C.NOT_LITERAL:
        return "[^" + lit(av) + "]"
    if op is C.IN:
        out, neg = "", False
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                out += lit(a)
            elif o is C.RANGE:
                out += lit(a[0]) + "-" + lit(a[1])
            elif o is C.CATEGORY:
                out += {C.CATEGORY_DIGIT: "\\d", C.CATEGORY_NOT_DIGIT: "\\D", C.CATEGORY_SPACE: "\\s", C.CATEGORY_NOT_SPACE: "\\S", C.CATEGORY_WORD: "\\w", C.CATEGORY_NOT_WORD: "\\W"}[a]
            else:
                return None
        return "[" + ("^" if neg else "") + out + "]"
    return None


def lit(c):
    return f"\\U{c:08x}"


def surely(tree, flags):
    """Character classes C such that the pattern matches at every position whose next character is in C, whatever follows.
    -> (list of classes, matches everywhere)"""
    items = list(tree)
    need = [x for x in items if not always_empty_ok(x)]
    if not need:
        return [], True
    if len(need) > 1:
        return [], False
    k = items.index(need[0])
    # what may be taken before must be giveable back: possessive or atomic parts in front of it are left out
    for x in items[:k]:
        if x[0] not in (C.MAX_REPEAT, C.MIN_REPEAT):
            return [], False
    op, av = need[0]
    cs = charset(need[0], flags)
    if cs is not None:
        return [cs], False
    if op in _REP and av[0] == 1:
        return surely(av[2], flags)
    if op is C.SUBPATTERN:
        if av[1] or av[2]:
            return [], False
        return surely(av[3], flags)
    if op is C.BRANCH:
        out = []
        for b in av[1]:
            s, e = surely(b, flags)
            if e:
                return [], True
            out += s
        return out, False
    return [], False


def uncovered(table, state):
    """Characters at which no rule of the state is sure to match. -> string (sample is ALL itself)"""
    classes = []
    for r in table.states[state]:
        s, e = surely(r.tree, r.tree.state.flags)
        if e:
            return ""
        fl = r.tree.state.flags & (re.IGNORECASE | re.ASCII)
        classes += [(c, fl) for c in s]
    rest = ALL
    for c, fl in classes:
        if not rest:
            break
        rest = re.sub(c, "", rest, flags=fl)
    return rest


def empty_cycles(table, states):
    """Rules that may match nothing and lie on a cycle of such steps (over-approximation). -> list of rules"""
    nul = {s: [r for r in table.states[s] if can_be_empty(r.tree)] for s in states}
    out = []
    tops = sorted(states)
    succ = {}
    for s in tops:
        for r in nul[s]:
            t = r.target
            if t is None or t == "#push":
                nx = [s]
            elif isinstance(t, int):
                nx = tops
            else:
                nx = tops if t[-1] == "#pop" else [s] if t[-1] == "#push" else [t[-1]]
            succ.setdefault(s, []).append((r, nx))

    def reach(a):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            for _r, nx in succ.get(x, []):
                for y in nx:
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
        return seen

    for s in tops:
        for r, nx in succ.get(s, []):
            if any(s == y or s in reach(y) for y in nx):
                out.append(r)
    return out


def lossless_action(M, r):
    """Does the action give the whole match back, by its form? -> None if yes, else what is in doubt"""
    a = r.action
    if M["is_tok"](a):
        return None
    if a is None:
        return None if max_width(r.tree) == 0 else "the matched text gets no token"
    st = getattr(a, "state", None)
    if isinstance(st, tuple) and st[0] == "bygroups":
        return by_groups_cover(r.tree, st[1], M)
    if isinstance(st, tuple) and st[0] == "using":
        return None
    return "a function makes the tokens"


def by_groups_cover(tree, actions, M):
    want = 1
    for op, av in tree:
        if op is C.AT or (op in (C.ASSERT, C.ASSERT_NOT)):
            continue
        if op is C.SUBPATTERN and av[0] is not None:
            if av[0] != want:
                return "groups are not in a row"
            if want > len(actions) or not (M["is_tok"](actions[want - 1])):
                return "a group gets no token"
            want = av[0] + 1 + sum(1 for _ in groups_in(av[3]))
            if want != av[0] + 1 and any(a is not None for a in actions[av[0] : want - 1]):
                return "nested groups get tokens"
            continue
        return "a part outside of the groups"
    return None


def groups_in(tree):
    for op, av in tree:
        if op is C.SUBPATTERN:
            if av[0] is not None:
                yield av[0]
            yield from groups_in(av[3])
        elif op in _REP:
            yield from groups_in(av[2])
        elif op is C.BRANCH:
            for b in av[1]:
                yield from groups_in(b)


# ------------------------------------------------------------------------------------------ exponential backtracking


class TooBig(Exception):
    pass


def nfa(tree, flags):
    """Position automaton with multiplicities as an epsilon automaton: (n states, eps edges, char edges [(p, class, q)], start, end)."""
    eps, chars = [], []
    cnt = [0]

    def new():
        cnt[0] += 1
        if cnt[0] > 3000:
            raise TooBig
        return cnt[0] - 1

    def seq(items, a):
        for x in items:
            a = one(x, a)
        return a

    def one(node, a):
        op, av = node
        cs = charset(node, flags)
        if cs is not None:
            b = new()
            chars.append((a, cs, b))
            return b
        if op in _REP:
            lo, hi, body = av
            for _ in range(min(lo, 3)):
                a = seq(body, a)
            if hi is C.MAXREPEAT or hi > 60:
                h = new()
                eps.append((a, h))
                e = seq(body, h)
                eps.append((e, h))
                b = new()
                eps.append((h, b))
                return b
            b = new()
            eps.append((a, b))
            for _ in range(min(hi - lo, 4)):
                a = seq(body, a)
                eps.append((a, b))
            return b
        if op is C.SUBPATTERN:
            return seq(av[3], a)
        if op is C.BRANCH:
            b = new()
            for x in av[1]:
                s = new()
                eps.append((a, s))
                eps.append((seq(x, s), b))
            return b
        if op in (C.AT, C.ASSERT, C.ASSERT_NOT):
            return a
        if getattr(C, "ATOMIC_GROUP", None) is op:
            return seq(av, a)
        raise TooBig

    s = new()
    e = seq(tree, s)
    return cnt[0], eps, chars, s, e


def exponential(tree, flags):
    """A text that a part of the pattern reads along two different paths from one state back to it (exponential backtracking when
    the rest fails), or None."""
    try:
        n, eps, chars, s0, e0 = nfa(tree, flags)
    except TooBig:
        return None
    out = [[] for _ in range(n)]
    for a, b in eps:
        out[a].append(b)

    def closure_paths(a):
        """eps-closure with the number of ways (2 = many)"""
        seen = {}

        def go(x, path):
            if x in path:
                return
            seen[x] = min(2, seen.get(x, 0) + 1)
            for y in out[x]:
                go(y, path | {x})

        go(a, frozenset())
        return seen

    by = [[] for _ in range(n)]
    for a, c, b in chars:
        by[a].append((c, b))
    reps = "".join(sorted(set("aZ09_ \n\t.*/'\"\\$@x-é" + "".join(re.findall(r"[\x20-\x7e]", "".join(chr(int(h, 16)) for _a, c, _b in chars for h in re.findall(r"\\U([0-9a-f]{8})", c)))))))
    inset = {}

    def holds(c, ch):
        if (c, ch) not in inset:
            inset[c, ch] = re.match(c, ch, flags & (re.IGNORECASE | re.ASCII)) is not None
        return inset[c, ch]

    # transitions on states "after a character": q -ch-> q' with multiplicity
    step = {}

    def steps(q, ch):
        if (q, ch) not in step:
            d = {}
            for x, w in closure_paths(q).items():
                for c, b in by[x]:
                    if holds(c, ch):
                        d[b] = min(2, d.get(b, 0) + w)
            step[q, ch] = d
        return step[q, ch]

    nodes = [b for _a, _c, b in chars]
    for q in nodes:
        # search in the product from (q, q, False) to (q, q, True)
        seen = {(q, q, False): ""}
        todo = [(q, q, False)]
        while todo:
            a, b, diff = todo.pop()
            for ch in reps:
                sa, sb = steps(a, ch), steps(b, ch)
                for x, wx in sa.items():
                    for y in sb:
                        d = diff or x != y or (a == b and wx > 1)
                        k = (x, y, d)
                        if k == (q, q, True):
                            return seen[a, b, diff] + ch
                        if k not in seen and len(seen) < 4000:
                            seen[k] = seen[a, b, diff] + ch
                            todo.append(k)
    return None


def hangs(tree, flags, tail=False):
    """A text with exponentially many ways through a repetition that something fallible follows, or None."""
    items = list(tree)
    for k, (op, av) in enumerate(items):
        after = tail or any(not always_empty_ok(x) for x in items[k + 1 :])
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            if after:
                w = exponential([items[k]], flags)
                if w:
                    return w
            w = hangs(av[2], flags, after)
            if w:
                return w
        elif op is C.SUBPATTERN:
            w = hangs(av[3], flags, after)
            if w:
                return w
        elif op is C.BRANCH:
            for b in av[1]:
                w = hangs(b, flags, after)
                if w:
                    return w
        elif op in (C.ASSERT, C.ASSERT_NOT):
            w = hangs(av[1], flags, True)
            if w:
                return w
    return None
