"""Program schemata: every production of the statement grammar x classes of bodies x surrounding x what follows.

Operation names, constants and labels are atoms: one schema stands for all programs of that shape."""
from __future__ import annotations

from .spec import *
from .values import Atom, mkstr


class G:
    """Fresh leaves of one program. abstract=False gives plain text leaves."""

    def __init__(self, abstract=True):
        self.n = 0
        self.abstract = abstract
        self.labels = 0

    def name(self, p):
        self.n += 1
        s = f"{p}{self.n}"
        return mkstr([Atom(s)]) if self.abstract else s

    def op(self, *a, **k):
        return op(self.name("o"), *a, **k)

    def c(self):
        return vc(self.name("C"))

    def var(self):
        return vc(mkstr(["$", self.name("v")]))

    def lab(self):
        return self.name("l")

    def cond(self, i=0):
        """Distinct conditions; the kinds rotate so that every header form meets every position."""
        self.n += 1
        k = (self.n + i) % 7
        if k == 0:
            return c_op(self.var(), "==", vi(self.n))
        if k == 1:
            return c_op(self.var(), ">", vi(self.n))
        if k == 2:
            return c_var(self.var(), "<=", self.c())
        if k == 3:
            return c_bit(self.var(), self.n)
        if k == 4:
            return c_scn(self.var(), "<", self.n, 1)
        if k == 5:
            return c_bit(vc(PERF), self.n, neg=bool(self.n % 2))
        return c_op(self.c(), "!=", self.c())

    def case(self):
        self.n += 1
        k = self.n % 4
        if k == 0:
            return k_val(vi(self.n))
        if k == 1:
            return k_op(">", vi(self.n))
        if k == 2:
            return k_var("<", self.var())
        return k_val(self.c())

    def hdr(self):
        self.n += 1
        k = self.n % 4
        if k == 0:
            return h_var(self.var())
        if k == 1:
            return h_random(vi(self.n))
        if k == 2:
            return h_scn(self.var(), self.n // 4 % 2)
        return h_oper(self.name("o"), vi(self.n))


# body classes: name -> (needs, builder(g, L)) ; L = label name that exists in the routine
def _b(s):
    """Tiny shape language: o op, r return;, E end;, j jump L, b break, c continue, l break_loop, w with-block,
    a assignment, k call L, m message switch, i if-with-op, I if/else, n negated empty-then, s switch, f forever,
    W while, F for, x label (own)"""

    def build(g, L):
        out = []
        for ch in s:
            if ch == "o":
                out.append(g.op())
            elif ch == "r":
                out.append(kw("return"))
            elif ch == "E":
                out.append(kw("end"))
            elif ch == "H":
                out.append(kw("hold"))
            elif ch == "j":
                out.append(Jump(L))
            elif ch == "k":
                out.append(Call(L))
            elif ch == "b":
                out.append(Break())
            elif ch == "c":
                out.append(Continue())
            elif ch == "l":
                out.append(BreakLoop())
            elif ch == "w":
                out.append(with_block("actor", g.c(), g.op()))
            elif ch == "t":
                out.append(WithCtl("object", g.c(), Jump(L)))
            elif ch == "a":
                out.append(assign(g.var(), "=", vi(1)))
            elif ch == "x":
                out.append(Label(g.lab()))
            elif ch == "i":
                out.append(If([(False, [g.cond()], [g.op()])]))
            elif ch == "I":
                out.append(If([(True, [g.cond()], [g.op()])], [g.op()]))
            elif ch == "n":
                out.append(If([(False, [g.cond()], [])]))
            elif ch == "u":
                out.append(If([(False, [g.cond()], [Jump(L)])]))
            elif ch == "R":
                out.append(If([(False, [g.cond()], [kw("return")])], [kw("end")]))
            elif ch == "s":
                out.append(Switch(g.hdr(), [(g.case(), [g.op(), Break()]), (g.case(), [g.op()])]))
            elif ch == "S":
                out.append(Switch(g.hdr(), [(g.case(), [Break()]), (None, [g.op()])]))
            elif ch == "f":
                out.append(Forever([g.op(), If([(False, [g.cond()], [BreakLoop()])])]))
            elif ch == "W":
                out.append(While(False, g.cond(), [g.op()]))
            elif ch == "F":
                out.append(For(g.op(), g.cond(), g.op(), [g.op()]))
            elif ch == "V":
                out.append(While(True, g.cond(), []))
            else:
                raise ValueError(ch)
        return out

    build.shape = s
    return build


BASE = ["", "o", "oo", "r", "or", "E", "oH", "j", "oj", "a", "w", "t", "x", "xo", "ox", "k", "ok", "jo", "rj"]
CASEB = ["b", "ob", "bo", "ib", "jb", "xb", "rb"]
LOOPB = ["c", "oc", "l", "ol", "co"]
NEST = ["i", "I", "n", "u", "R", "s", "S", "f", "W", "F", "V", "oi", "io", "so", "fo", "os", "ij", "iI"]
KEY = ["", "o", "r", "j", "oj", "x"]
KEYCASE = KEY + ["b", "ob"]


def in_loop(ctx):
    return ctx in ("forever", "while", "nwhile", "for")


def in_case(ctx):
    return ctx in ("case", "lastcase", "default", "middefault")


CTXS = ["top", "top1", "then", "nthen", "else", "elseif", "case", "lastcase", "default", "middefault", "forever", "while", "nwhile", "for", "macro"]


def wrap(ctx, g, inner):
    """Statements of a routine that contain `inner` (list of statements) in the given surrounding."""
    if ctx == "top":
        return inner
    if ctx == "top1":
        return [g.op()] + inner
    if ctx == "then":
        return [If([(False, [g.cond()], inner)])]
    if ctx == "nthen":
        return [If([(True, [g.cond()], inner)])]
    if ctx == "else":
        return [If([(False, [g.cond()], [g.op()])], inner)]
    if ctx == "elseif":
        return [If([(False, [g.cond()], [g.op()]), (False, [g.cond()], inner)], [g.op()])]
    if ctx == "case":
        return [Switch(g.hdr(), [(g.case(), inner), (g.case(), [g.op()])])]
    if ctx == "lastcase":
        return [Switch(g.hdr(), [(g.case(), [g.op()]), (g.case(), inner)])]
    if ctx == "default":
        return [Switch(g.hdr(), [(g.case(), [g.op(), Break()]), (None, inner)])]
    if ctx == "middefault":
        return [Switch(g.hdr(), [(g.case(), [g.op()]), (None, inner), (g.case(), [g.op()])])]
    if ctx == "forever":
        return [Forever(inner)]
    if ctx == "while":
        return [While(False, g.cond(), inner)]
    if ctx == "nwhile":
        return [While(True, g.cond(), inner)]
    if ctx == "for":
        return [For(g.op(), g.cond(), g.op(), inner)]
    raise ValueError(ctx)


TAILS = ["", "o", "r", "E", "xo", "x", "j"]


def constructs(ctx, bodies, bodies2):
    """yield (name, builder(g, L) -> [statements]) for every construct with every combination of body classes."""
    bc = bodies + (["b", "ob"] if in_case(ctx) else []) + (["c", "l", "ol"] if in_loop(ctx) else [])
    b2 = bodies2 + (["b"] if in_case(ctx) else []) + (["c", "l"] if in_loop(ctx) else [])
    for neg in (False, True):
        for nc in (1, 2):
            for b in bc:
                yield f"if{'not' if neg else ''}{nc}:{b}", lambda g, L, neg=neg, nc=nc, b=b: [
                    If([(neg, [g.cond() for _ in range(nc)], _b(b)(g, L))])
                ]
                for e in b2:
                    yield f"if{'not' if neg else ''}{nc}:{b}/else:{e}", lambda g, L, neg=neg, nc=nc, b=b, e=e: [
                        If([(neg, [g.cond() for _ in range(nc)], _b(b)(g, L))], _b(e)(g, L))
                    ]
    for n1 in (False, True):
        for n2 in (False, True):
            for b in b2:
                for c in b2:
                    for e in [None] + b2[:4]:
                        yield f"if{n1:d}:{b}/elseif{n2:d}:{c}/else:{e}", lambda g, L, n1=n1, n2=n2, b=b, c=c, e=e: [
                            If([(n1, [g.cond()], _b(b)(g, L)), (n2, [g.cond(), g.cond()] if n1 == n2 else [g.cond()], _b(c)(g, L))], None if e is None else _b(e)(g, L))
                        ]
    sb = b2 + (["b", "ob"] if not in_case(ctx) else ["ob"])
    # switches: '-' marks the default
    for b in bc + ["b", "ob", "ib", "jb"]:
        if b:
            yield f"switch:c={b}", lambda g, L, b=b: [Switch(g.hdr(), [(g.case(), _b(b)(g, L))])]
            yield f"switch:d={b}", lambda g, L, b=b: [Switch(g.hdr(), [(None, _b(b)(g, L))])]
    for b in sb:
        for c in sb:
            if not c:
                continue
            for kinds in ("cc", "cd", "dc"):
                yield f"switch:{kinds}={b},{c}", lambda g, L, b=b, c=c, kinds=kinds: [
                    Switch(g.hdr(), [(g.case() if kinds[0] == "c" else None, _b(b)(g, L)), (g.case() if kinds[1] == "c" else None, _b(c)(g, L))])
                ]
    for b, c, d in (("o", "b", "o"), ("o", "j", "o"), ("ob", "j", "o"), ("j", "b", "ob"), ("i", "b", "o"), ("oi", "j", "ob"), ("x", "b", "o"), ("", "", "o"), ("ob", "", "o"), ("", "ob", "o"), ("o", "ob", "b"), ("b", "b", "b"), ("", "", "b"), ("r", "r", "r"), ("j", "ob", "j"), ("o", "o", "o"), ("", "b", "j"), ("i", "ib", "s"), ("x", "b", "x")):
        for kinds in ("ccc", "dcc", "cdc", "ccd"):
            yield f"switch:{kinds}={b},{c},{d}", lambda g, L, bs=(b, c, d), kinds=kinds: [
                Switch(g.hdr(), [(g.case() if k == "c" else None, _b(x)(g, L)) for k, x in zip(kinds, bs)])
            ]
    lb = [b for b in bodies if "b" not in b] + ["c", "oc", "l", "ol", "co"] + (["b", "ob", "lb"] if in_case(ctx) else [])
    for b in lb:
        yield f"forever:{b}", lambda g, L, b=b: [Forever(_b(b)(g, L))]
        for neg in (False, True):
            yield f"while{neg:d}:{b}", lambda g, L, b=b, neg=neg: [While(neg, g.cond(), _b(b)(g, L))]
        yield f"for:{b}", lambda g, L, b=b: [For(g.op(), g.cond(), assign(g.var(), "+=", vi(1)), _b(b)(g, L))]
    yield "for:with-ctl", lambda g, L: [For(assign(g.var(), "=", vi(0)), g.cond(), g.op(), [If([(False, [g.cond()], [Continue()])]), g.op()])]
    yield "seq:ox", lambda g, L: _b("ox")(g, L)
    for b in bodies:
        yield f"seq:{b}", lambda g, L, b=b: _b(b)(g, L)


LPOS = ["start", "end", "after", "other"]


def program(ctx, build, tail, lpos, g):
    """Place a construct. lpos says where the label L stands that `j`/`k` bodies use."""
    L = g.lab()
    before, extra = [], []
    macro = None
    inner = build(g, L)
    tl = _b(tail)(g, L)
    if ctx == "macro":
        mname = g.name("m")
        body = inner + tl
        if lpos == "start":
            body = [Label(L)] + body
        elif lpos == "end":
            body = body + [Label(L)]
        elif lpos == "after":
            body = inner + [Label(L)] + tl
        else:
            body = inner + tl + [kw("return"), Label(L), g.op()]
        macro = Macro(mname, [], body)
        stm = [g.op(), MacroCall(mname), g.op(), MacroCall(mname)]
        return Program([macro, rt(0, stm)])
    used = wrap(ctx, g, inner + (tl if ctx not in ("top", "top1") else []))
    if ctx in ("top", "top1"):
        used = used + ([Label(L)] if lpos == "after" else []) + tl
    else:
        used = used + ([Label(L)] if lpos == "after" else [])
    items = []
    if lpos == "start":
        used = [Label(L)] + used
    elif lpos == "end":
        used = used + [Label(L)]
    if lpos == "other":
        return Program([rt(0, used), rt(1, [g.op(), Label(L), g.op(), kw("return")])])
    return Program([rt(0, used)])


def uses_label(prog_toks):
    return any(t.t == "@" for t in prog_toks)
