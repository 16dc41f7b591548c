"""One schema per production of the statement / header / operand grammar (every operator, every operand kind)."""
from __future__ import annotations

from .families import G
from .spec import *
from .values import Atom, mkstr

CONDOPS = ["==", ">", "<", ">=", "<=", "!=", "&", "^", "&<<", "FALSE", "TRUE"]
ASSOPS = ["=", "-=", "+=", "*=", "/="]


def ints(g):
    g.n += 1
    return [lambda: vi(7), lambda: vi(-3), lambda: vi(255, "0xff"), lambda: vi(0), lambda: g.c(), lambda: g.var(), lambda: vfx("1.5")]


def operands(g):
    """every kind of operation argument"""
    return [
        vi(5), vi(-17), vi(0), vi(10, "0b1010"), vi(8, "0o10"), g.c(), g.var(), vfx("2.25"), vfx("-0.75"), vfx("0.05"),
        vs("plain"), vs("with 'inner' quotes"), vs("tick", "'"), vs(""), vl([("english", "a"), ("french", "b")]), vl([("x", "")]),
        vp("m0", 3, 4), vp("m1", 8, 9), vp("m2", 0, 0), vp("m3", -2, 6), vp("m4", 8, -2), vp("m5", -5, -2), vp("m6", -4, -3),
    ]


def conds(g):
    for o in CONDOPS:
        for nm, v in (("i", vi(4)), ("c", g.c()), ("v", g.var())):
            yield f"op{o}{nm}", lambda g, o=o, v=v: c_op(g.var(), o, v)
        yield f"opi{o}", lambda g, o=o: c_op(vi(4), o, vi(3))
        for nm, v in (("i", lambda g: vi(4)), ("v", lambda g: g.var())):
            yield f"var{o}{nm}", lambda g, o=o, v=v: c_var(g.var(), o, v(g))
    yield "bit", lambda g: c_bit(g.var(), 3)
    yield "bitc", lambda g: c_bit(g.c(), 11)
    yield "biti", lambda g: c_bit(vi(6), 2)
    yield "perf", lambda g: c_bit(vc(PERF), 5)
    yield "perfnot", lambda g: c_bit(vc(PERF), 6, True)
    for o in SCNOPS:
        yield f"scn{o}", lambda g, o=o: c_scn(g.var(), o, 30, 2)
    for w in ("debug", "edit", "variation"):
        for n in (False, True):
            yield f"{'not ' if n else ''}{w}", lambda g, w=w, n=n: c_kw(w, n)
    yield "operES", lambda g: c_oper("BranchExecuteSub", vi(3))
    yield "operSum", lambda g: c_oper("BranchSum", vi(3), vi(2), g.c())


def headers(g):
    yield "v", lambda g: h_var(g.var())
    yield "c", lambda g: h_var(g.c())
    yield "i", lambda g: h_var(vi(9))
    yield "scn0", lambda g: h_scn(g.var(), 0)
    yield "scn1", lambda g: h_scn(g.var(), 1)
    yield "rnd", lambda g: h_random(vi(9))
    yield "rndc", lambda g: h_random(g.c())
    yield "dm", lambda g: h_dmode(g.c())
    yield "sector", lambda g: h_sector()
    yield "op0", lambda g: h_oper(g.name("o"))
    yield "op2", lambda g: h_oper(g.name("o"), vi(1), g.c())


def cases(g):
    yield "i", lambda g: k_val(vi(3))
    yield "c", lambda g: k_val(g.c())
    yield "v", lambda g: k_val(g.var())
    for o in CONDOPS:
        yield f"op{o}", lambda g, o=o: k_op(o, vi(2))
        yield f"var{o}", lambda g, o=o: k_var(o, g.var())
    yield "opc", lambda g: k_op(">", g.c())
    yield "menu", lambda g: k_menu(vs("text"))
    yield "menul", lambda g: k_menu(vl([("english", "a"), ("german", "b")]))
    yield "menu2", lambda g: k_menu2(vi(4))
    yield "menu2c", lambda g: k_menu2(g.c())


def simple(g):
    for o in ASSOPS:
        for nm, v in (("i", lambda g: vi(4)), ("c", lambda g: g.c()), ("d", lambda g: vfx("0.5")), ("v", lambda g: g.var())):
            yield f"ass{o}{nm}", lambda g, o=o, v=v: assign(g.var(), o, v(g))
        yield f"assvar{o}", lambda g, o=o: assign_var(g.var(), o, g.var())
        yield f"assi{o}", lambda g, o=o: assign(vi(3), o, vi(4))
    yield "assbit", lambda g: assign_bit(g.var(), 4, vi(1))
    yield "assbitc", lambda g: assign_bit(g.c(), 4, g.c())
    yield "assperf", lambda g: assign_bit(vc(PERF), 4, vi(0))
    yield "clear", lambda g: clear(g.var())
    yield "init", lambda g: init(g.var())
    yield "resetd", lambda g: reset_dungeon()
    yield "resets", lambda g: reset_scn(g.var())
    yield "adv", lambda g: adv_log(vi(4))
    yield "advc", lambda g: adv_log(g.c())
    yield "dm", lambda g: set_dmode(g.c(), vi(2))
    yield "dmc", lambda g: set_dmode(vi(3), g.c())
    yield "scn", lambda g: set_scn(g.var(), 7, 9)
    for kind in ("actor", "object", "performer"):
        for nm, idt in (("c", lambda g: g.c()), ("i", lambda g: vi(3)), ("v", lambda g: g.var())):
            yield f"inl{kind}{nm}", lambda g, kind=kind, idt=idt: op(g.name("o"), vi(1), ctx=(kind, idt(g)))
    n = len(operands(g))
    for i in range(n):
        yield f"arg{i}", lambda g, i=i: g.op(operands(g)[i])
        yield f"arg{i}t", lambda g, i=i: op(g.name("o"), g.c(), operands(g)[i], trailing=True)
    yield "args", lambda g: g.op(*operands(g))
    yield "noargs", lambda g: g.op()


# blocks whose last statement is x, with something after it
ENDS = [
    ("if", lambda g, x: [If([(False, [g.cond()], [g.op(), x])])]),
    ("if not", lambda g, x: [If([(True, [g.cond()], [x])], [g.op()])]),
    ("if else", lambda g, x: [If([(False, [g.cond()], [x])], [g.op()])]),
    ("else", lambda g, x: [If([(True, [g.cond()], [g.op()])], [x])]),
    ("elseif", lambda g, x: [If([(False, [g.cond()], [g.op()]), (True, [g.cond()], [x])], [g.op()])]),
    ("case", lambda g, x: [Switch(g.hdr(), [(g.case(), [x]), (g.case(), [g.op()])])]),
    ("default", lambda g, x: [Switch(g.hdr(), [(g.case(), [g.op(), Break()]), (None, [x])])]),
    ("first default", lambda g, x: [Switch(g.hdr(), [(None, [x]), (g.case(), [g.op(), Break()])])]),
    ("forever", lambda g, x: [Forever([If([(False, [g.cond()], [BreakLoop()])]), x])]),
    ("while", lambda g, x: [While(False, g.cond(), [x])]),
    ("for", lambda g, x: [For(g.op(), g.cond(), g.op(), [x])]),
    ("nested", lambda g, x: [If([(True, [g.cond()], [Switch(g.hdr(), [(g.case(), [If([(False, [g.cond()], [x])], [kw("end")])])])])], [g.op()])]),
]


def stmts(g):
    """(name, builder(g) -> list of statements)"""
    for nm, b in simple(g):
        yield "simple:" + nm, lambda g, b=b: [b(g)]
        if not nm.startswith("inl"):
            for kind in ("actor", "object", "performer"):
                yield f"with{kind}:{nm}", lambda g, b=b, kind=kind: [with_block(kind, g.c(), b(g))]
        yield "for:" + nm, lambda g, b=b: [For(b(g), g.cond(), b(g), [g.op()])]
    for nm, b in conds(g):
        for neg in (False, True):
            yield f"if{neg:d}:{nm}", lambda g, b=b, neg=neg: [If([(neg, [b(g)], [g.op()])], [g.op()])]
            yield f"while{neg:d}:{nm}", lambda g, b=b, neg=neg: [While(neg, b(g), [g.op()])]
            yield f"elif{neg:d}:{nm}", lambda g, b=b, neg=neg: [If([(False, [g.cond()], [g.op()]), (neg, [g.cond(), b(g)], [g.op()])])]
        yield f"for:{nm}", lambda g, b=b: [For(g.op(), b(g), g.op(), [g.op()])]
        yield f"or:{nm}", lambda g, b=b: [If([(False, [b(g), g.cond(), b(g)], [g.op()])])]
    hs = list(headers(g))
    cs = list(cases(g))
    for nm, b in hs:
        for cn, c in cs:
            yield f"switch:{nm}/{cn}", lambda g, b=b, c=c: [Switch(b(g), [(c(g), [g.op(), Break()]), (g.case(), [g.op()]), (c(g), [Break()])])]
        yield f"switch:{nm}/d", lambda g, b=b: [Switch(b(g), [(None, [g.op()])])]
        yield f"switch:{nm}/none", lambda g, b=b: [Switch(b(g), [])]
    for which in ("message_SwitchTalk", "message_SwitchMonologue"):
        for nm, v in (("v", lambda g: g.var()), ("i", lambda g: vi(3))):
            for k, cs_ in (("0", 0), ("1", 1), ("3", 3)):
                for d in (None, "s", "l"):
                    def b(g, which=which, v=v, cs_=cs_, d=d):
                        cc = [(vi(j) if j != 1 else g.c(), vs(f"t{j}") if j % 2 else vl([("english", f"e{j}"), ("french", "f")])) for j in range(cs_)]
                        return [message_switch(which, v(g), cc, None if d is None else vs("dd") if d == "s" else vl([("english", "x")]))]

                    yield f"{which}:{nm}{k}{d}", b
    for w in ("return", "end", "hold"):
        yield f"kw:{w}", lambda g, w=w: [If([(False, [g.cond()], [kw(w)])])]


def ends():
    """Blocks that end on a flow-ending op that is run for an actor, object or performer."""
    for kind in ("actor", "object", "performer"):
        for w, mk in (("return", lambda: kw("return")), ("end", lambda: kw("end")), ("hold", lambda: kw("hold")), ("Destroy", lambda: op("Destroy")), ("inline Destroy", None)):
            for wn, wrap in ENDS:
                def last(g, kind=kind, mk=mk):
                    return op("Destroy", ctx=(kind, g.c())) if mk is None else with_block(kind, g.c(), mk())

                yield f"{wn} ends on with {kind} {w}", lambda g, wrap=wrap, last=last: wrap(g, last(g))


def end_programs():
    for nm, b in ends():
        yield nm, lambda g, b=b: Program([rt(0, [g.op()] + b(g) + [g.op(), kw("return")])])


def programs(g0=None):
    """(name, builder(g) -> Program)"""
    g0 = g0 or G(True)
    for nm, b in stmts(g0):
        yield nm, lambda g, b=b: Program([rt(0, [g.op()] + b(g) + [g.op(), kw("return")])])
    yield from layouts()


def layouts():
    def R(g, i, mk=rt):
        return mk(i, [g.op(), kw("end")])

    yield "routines:3", lambda g: Program([R(g, 0), R(g, 1), R(g, 2)])
    for kind in ("actor", "object", "performer"):
        for st in (0, 1, 2):
            yield f"routines:for {kind} c{st}", lambda g, kind=kind, st=st: Program([rt(0, [g.op()]), rt_for(1, kind, g.c(), [g.op(), kw("hold")], st), rt_for(2, kind, vi(4), [g.op()], st)])
            yield f"routines:for {kind} i{st}", lambda g, kind=kind, st=st: Program([rt_for(0, kind, vi(4), [g.op()], st), rt_for(1, kind, vi(0), [g.op()], st), rt_for(2, kind, g.c(), [g.op(), kw("hold")], st)])
            yield f"routines:alias {kind}{st}", lambda g, kind=kind, st=st: Program([rt_for(0, kind, vi(4), [g.op()], st), rt_for(1, kind, vi(5), None, st, alias=True), rt_for(2, kind, g.c(), None, st, alias=True), rt(3, [g.op()])])
    yield "routines:coro", lambda g: Program([coro(g.name("N"), [g.op(), kw("return")]), coro(g.name("N"), [g.op()])])
    yield "routines:coro alias", lambda g: Program([coro(g.name("N"), [g.op(), kw("return")]), coro(g.name("N"), None, alias=True), coro(g.name("N"), [g.op()])])
    yield "routines:mixed", lambda g: Program([rt(0, [g.op()]), coro(g.name("N"), [g.op(), kw("return")]), rt(2, [g.op()]), rt_for(3, "actor", g.c(), [g.op()])])
    yield "routines:alias", lambda g: Program([rt(0, [g.op()]), rt(1, None, alias=True), rt(2, [g.op()])])

    def xj(kind):
        def b(g):
            a, c = g.lab(), g.lab()
            return Program([rt(0, [g.op(), kind(c), g.op(), Label(a), g.op(), kw("end")]), rt(1, [Label(c), g.op(), kind(a)]), rt_for(2, "actor", g.c(), [kind(c), g.op()])])

        return b

    yield "routines:xjump", xj(Jump)
    yield "routines:xcall", xj(Call)

    def endlab(tail):
        def b(g):
            a = g.lab()
            return Program([rt(0, [g.op(), If([(False, [g.cond()], [Jump(a)])]), g.op()] + tail(g, a)), rt(1, [g.op(), Jump(a)])])

        return b

    yield "routines:label at end", endlab(lambda g, a: [Label(a)])
    yield "routines:two labels at end", endlab(lambda g, a: [Label(g.lab()), Label(a)])
    yield "routines:call to end", endlab(lambda g, a: [Call(a), Label(a)])
    yield "routines:only label", lambda g: (lambda a: Program([rt(0, [Label(a)]), rt(1, [g.op(), Jump(a)])]))(g.lab())
