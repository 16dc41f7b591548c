"""The same constructs at sizes beyond the enumerated bounds: long bodies, many cases, conditions, branches, routines, labels, arguments; deep nesting."""
from __future__ import annotations

from . import copyfam
from .families import G
from .spec import *


def ops(g, n):
    return [g.op() for _ in range(n)]


def one(body, tail="return"):
    return lambda g: Program([rt(0, [g.op()] + body(g) + [g.op(), kw(tail)])])


def nest(n, wrap):
    """n levels of wrap(g, inner, level)"""

    def b(g):
        inner = [g.op()]
        for k in range(n):
            inner = wrap(g, inner, k)
        return inner

    return b


def w_if(g, inner, k):
    return [If([(False, [g.cond()], [g.op()] + inner)])]


def w_ifelse(g, inner, k):
    return [If([(k % 2 == 1, [g.cond()], [g.op()]), (False, [g.cond(), g.cond()], [g.op()])], inner + [g.op()])]


def w_switch(g, inner, k):
    return [Switch(g.hdr(), [(k_val(vi(k)), [g.op(), Break()]), (k_val(vi(k + 50)), inner + [Break()]), (None, [g.op()])])]


def w_forever(g, inner, k):
    return [Forever([g.op(), If([(False, [g.cond()], [BreakLoop()])])] + inner)]


def w_while(g, inner, k):
    return [While(False, g.cond(), inner + [g.op()])]


def w_for(g, inner, k):
    return [For(g.op(), g.cond(), g.op(), inner + [If([(False, [g.cond()], [Continue()])])])]


def w_mixed(g, inner, k):
    return [w_if, w_switch, w_while, w_ifelse, w_forever, w_for][k % 6](g, inner, k)


def flat(sizes):
    for n in sizes:
        yield f"ops {n}", one(lambda g, n=n: ops(g, n))
        yield f"then {n}", one(lambda g, n=n: [If([(False, [g.cond()], ops(g, n))])])
        yield f"then {n} else {n + 1}", one(lambda g, n=n: [If([(False, [g.cond()], ops(g, n))], ops(g, n + 1))])
        yield f"short then, else {n}", one(lambda g, n=n: [If([(True, [g.cond()], ops(g, 1))], ops(g, n))])
        yield f"case bodies {n}", one(lambda g, n=n: [Switch(g.hdr(), [(k_val(vi(1)), ops(g, n) + [Break()]), (k_val(vi(2)), ops(g, 1) + [Break()]), (None, ops(g, n) + [Break()])])])
        yield f"cases {n}", one(lambda g, n=n: [Switch(g.hdr(), [(k_val(vi(k)), [g.op(), Break()]) for k in range(n)] + [(None, [g.op(), Break()])])])
        yield f"cases of one block {n}", one(lambda g, n=n: [Switch(g.hdr(), [(k_val(vi(k)), []) for k in range(n)] + [(k_val(vi(n)), [g.op(), Break()]), (k_val(g.c()), [g.op(), Break()])])])
        yield f"conditions {n}", one(lambda g, n=n: [If([(False, [g.cond() for _ in range(n)], [g.op()])], [g.op()])])
        yield f"not conditions {n}", one(lambda g, n=n: [If([(True, [g.cond() for _ in range(n)], [g.op()])])])
        yield f"elseifs {n}", one(lambda g, n=n: [If([(False, [g.cond()], [g.op()]) for _ in range(n)], [g.op()])])
        yield f"elseifs {n} open", one(lambda g, n=n: [If([(k % 3 == 1, [g.cond()], [g.op()]) for k in range(n)])])
        yield f"ifs {n}", one(lambda g, n=n: [s for _ in range(n) for s in (If([(False, [g.cond()], [g.op()])]), g.op())])
        yield f"switches {n}", one(lambda g, n=n: [Switch(g.hdr(), [(k_val(vi(k)), [g.op(), Break()]), (None, [g.op(), Break()])]) for k in range(n)])
        yield f"texts {n}", one(lambda g, n=n: [message_switch("message_SwitchTalk", g.var(), [(vi(k), vs(f"t{k}")) for k in range(n)], vs("d"))])
        yield f"arguments {n}", one(lambda g, n=n: [g.op(*[[vi(k), g.c(), vs(f"s{k}"), g.var(), vfx("1.5")][k % 5] for k in range(n)])])
        yield f"languages {n}", one(lambda g, n=n: [g.op(vl([(f"lang{k}", f"t{k}") for k in range(n)]))])
        yield f"marks {n}", one(lambda g, n=n: [g.op(*[vp(f"m{k}", 2 * k + k % 2, 3 * k) for k in range(n)])])
        yield f"withs {n}", one(lambda g, n=n: [with_block("actor", g.c(), g.op(vi(k))) for k in range(n)])


def control(sizes, depths):
    for n in sizes:
        yield f"case fall through {n}", one(lambda g, n=n: [Switch(g.hdr(), [(k_val(vi(k)), [g.op()]) for k in range(n)] + [(None, [g.op()])])])
        yield f"loop of {n}", one(lambda g, n=n: [Forever(ops(g, n) + [If([(False, [g.cond()], [BreakLoop()])])] + ops(g, n))])
        yield f"breaks {n}", one(lambda g, n=n: [Forever([s for _ in range(n) for s in (g.op(), If([(False, [g.cond()], [BreakLoop()])]))])])
        yield f"continues {n}", one(lambda g, n=n: [While(False, g.cond(), [s for _ in range(n) for s in (g.op(), If([(False, [g.cond()], [Continue()])]))] + [g.op()])])

        def labels(g, n=n):
            ls = [g.lab() for _ in range(n)]
            return [s for k, l in enumerate(ls) for s in (Label(l), g.op(), If([(False, [g.cond()], [Jump(ls[(k * 7 + 3) % n])])]))]

        yield f"labels {n}", one(labels)

        def far(g, n=n):
            a, b = g.lab(), g.lab()
            return [Label(a), If([(False, [g.cond()], [Jump(b)])])] + ops(g, n) + [If([(False, [g.cond()], [Jump(a)])]), Label(b)]

        yield f"far jumps {n}", one(far)

        def calls(g, n=n):
            ls = [g.lab() for _ in range(n)]
            return Program([rt(0, [s for l in ls for s in (Call(l), g.op())] + [kw("end")])] + [rt(k + 1, [Label(l), g.op(), kw("return")]) for k, l in enumerate(ls)])

        yield f"calls {n}", calls
        yield f"routines {n}", lambda g, n=n: Program([rt(k, [g.op(vi(k)), If([(False, [g.cond()], [g.op()])]), kw("end")]) for k in range(n)])
        yield f"coroutines {n}", lambda g, n=n: Program([coro(g.name("N"), [g.op(vi(k)), kw("return")]) for k in range(n)])
        yield f"targets {n}", lambda g, n=n: Program([rt_for(k, ("actor", "object", "performer")[k % 3], g.c() if k % 2 else vi(k), [g.op(vi(k)), kw("hold")]) for k in range(n)])

        def web(g, n=n):
            ls = [g.lab() for _ in range(n)]
            return Program([rt(k, [g.op(), Label(ls[k]), g.op(), Jump(ls[(k + 1) % n]) if k % 2 else kw("end")]) for k in range(n)])

        yield f"web {n}", web
    for n in depths:
        for nm, w in (("ifs", w_if), ("ifelses", w_ifelse), ("switches", w_switch), ("forevers", w_forever), ("whiles", w_while), ("fors", w_for), ("mixed", w_mixed)):
            yield f"nested {nm} {n}", one(nest(n, w))


def flat_programs(tier):
    """What comes back without jumps (C13)."""
    return [("big " + n, b) for n, b in flat((11, 34) if tier == "quick" else (11, 34, 101))] + list(copyfam.flat(tier))


def programs(tier):
    q = tier == "quick"
    out = list(flat((11,) if q else (11, 34, 101))) + list(control((11,) if q else (11, 34), (6,) if q else (5, 6, 9, 12)))
    if q:
        keep = ("ops", "then 34", "cases 34", "case bodies", "elseifs 34", "short then")
        out += [x for x in flat((34,)) if x[0].startswith(keep)] + [x for x in flat((101,)) if x[0].startswith("ops")]
    return [("big " + n, b) for n, b in out] + list(copyfam.programs(tier))


# ---------------------------------------------------------------- macros and files
def macros(tier):
    from .project import Project
    from .values import mkstr

    out = []
    sizes = (11,) if tier == "quick" else (11, 34)

    def add(n, b):
        out.append(("big " + n, b))

    def prm(g):
        return mkstr(["$", g.name("p")])

    for n in sizes:

        def params(g, n=n):
            ps = [prm(g) for _ in range(n)]
            m = g.name("m")
            args = [[vi(k), g.c(), vs(f"s{k}"), g.var(), vfx("1.5")][k % 5] for k in range(n)]
            return Program([Macro(m, ps, [g.op(*[vc(p) for p in reversed(ps)])] + [g.op(vc(p)) for p in ps]), rt(0, [g.op(), MacroCall(m, args), g.op(), MacroCall(m, args[1:] + args[:1])])])

        add(f"parameters {n}", params)

        def calls(g, n=n):
            m, p = g.name("m"), prm(g)
            l = g.lab()
            body = [g.op(vc(p)), Label(l), If([(False, [g.cond()], [kw("return")]), (False, [g.cond()], [Jump(l)])]), g.op()]
            return Program([Macro(m, [p], body), rt(0, [g.op()] + [s for k in range(n) for s in (MacroCall(m, [vi(k)]), g.op())] + [kw("end")])])

        add(f"macro calls {n}", calls)

        def deep(g, n=n, up=False):
            ms = [g.name("m") for _ in range(n)]
            ps = [prm(g) for _ in range(n)]
            out = [Macro(ms[k], [ps[k]], [g.op(vc(ps[k]))] + ([MacroCall(ms[k + 1], [vc(ps[k])]), g.op()] if k + 1 < n else [If([(False, [g.cond()], [kw("return")])]), g.op()])) for k in range(n)]
            if up:
                out.reverse()
            return Program(out + [rt(0, [MacroCall(ms[0], [g.c()]), MacroCall(ms[n // 2], [vi(5)]), kw("return")])])

        add(f"macro chain {n}", deep)
        add(f"macro chain {n} backwards", lambda g, f=deep: f(g, up=True))

        def many(g, n=n):
            ms = [g.name("m") for _ in range(n)]
            body = lambda k: [g.op(vi(k))] + [MacroCall(ms[j]) for j in (k - 1, k - 4, k - 9) if j >= 0]
            return Program([Macro(ms[k], [], body(k)) for k in ([x for x in range(n) if x % 2] + [x for x in range(n) if x % 2 == 0])] + [rt(0, [MacroCall(ms[min(n, 11) - 1]), g.op(), kw("end")])])

        add(f"macros {n}", many)

        def body(g, n=n):
            m, p = g.name("m"), prm(g)
            ls = [g.lab() for _ in range(n)]
            b = [s for k, l in enumerate(ls) for s in (Label(l), g.op(vc(p), vi(k)), If([(False, [g.cond()], [Jump(ls[(k * 5 + 2) % n])])]))]
            return Program([Macro(m, [p], b + [kw("return"), g.op()]), rt(0, [MacroCall(m, [vi(1)]), MacroCall(m, [g.c()]), g.op(), kw("end")])])

        add(f"macro labels {n}", body)

        def nested(g, n=n):
            m, p = g.name("m"), prm(g)
            return Program([Macro(m, [p], nest(7, w_mixed)(g) + [Switch(g.hdr(), [(k_val(vi(k)), [g.op(vc(p)), kw("return") if k % 3 == 1 else Break()]) for k in range(n)]), g.op()]), rt(0, [g.op(), MacroCall(m, [g.c()]), g.op(), MacroCall(m, [vi(2)]), kw("end")])])

        add(f"macro nesting {n}", nested)

        def files(g, n=n, line=True):
            ms = [g.name("m") for _ in range(n)]
            fs = {}
            for k in range(n):
                nxt = line and k + 1 < n
                fs[f"/v/d{k}/f{k}.exps"] = Program([Macro(ms[k], [], [g.op(vi(k), vp(f"m{k}", 2 * k, k))] + ([MacroCall(ms[k + 1])] if nxt else []) + [g.op()])], [Import(f"../d{k + 1}/f{k + 1}.exps")] if nxt else [])
            main = Program([rt(0, [g.op()] + [MacroCall(m) for m in (ms[:1] if line else ms)] + [g.op(vp("m", 3, 3)), kw("end")])], [Import(f"./d{k}/f{k}.exps") for k in range(1 if line else n)])
            return Project(main, fs)

        add(f"import chain {n}", files)
        add(f"imports {n}", lambda g, f=files: f(g, line=False))
        add(f"lookup paths {n}", lambda g, n=n: (lambda m: Project(Program([rt(0, [g.op(), MacroCall(m), kw("end")])], [Import("s/a.exps")]), {f"/l{n - 1}/s/a.exps": Program([Macro(m, [], [g.op(), g.op()])])}, [f"/l{k}" for k in range(n)]))(g.name("m")))
    return out


def spelled(rs):
    """The same routine set with headers that have a spelling."""
    def hd(i, h):
        if h.kind == "COROUTINE":
            return coro(h.name, [])
        if h.kind == "GENERIC":
            return rt(i, [])
        return rt_for(i, h.kind.lower(), vi(h.linked[1]) if h.linked[0] == "i" else vc(h.linked[1]), [])

    def val(v):
        k, x = v.norm[0], v.norm[1]
        return {"i": vi, "c": vc, "s": vs, "l": lambda d: vl([(a, b.replace("\n", " ")) for a, b in d])}[k](x)

    return type(rs)([(hd(i, h), [type(o)(o.name, [val(p) for p in o.params], o.target) for o in ops]) for i, (h, ops) in enumerate(rs.routines)])


def rsets(tier):
    """Routine sets with jumps for SsbScript."""
    from .decfam import O, c_, i_, l_, s_
    from .dcode import Head
    from .ssbs import RSet

    out = []
    for n in (11, 34) if tier == "quick" else (11, 34, 101, 301):
        ps = [[i_(k), c_(f"C{k}"), s_(f"s{k}"), c_(f"$V{k}"), l_({"english": f"e{k}", "french": "f\ng"})][k % 5] for k in range(n)]
        out.append((f"ops {n}", RSet([(Head(), [O(f"o{k}", i_(k)) for k in range(n)] + [O("End")])])))
        out.append((f"arguments {n}", RSet([(Head(), [O("o", *ps), O("Branch", c_("$V"), i_(1), to=(0, 0)), O("End")])])))
        out.append((f"languages {n}", RSet([(Head(), [O("o", l_({f"lang{k}": f"t{k}" for k in range(n)})), O("End")])])))
        out.append((f"labels {n}", RSet([(Head(), [O("Branch", c_("$V"), i_(k), to=(0, (k * 7 + 3) % n)) for k in range(n)] + [O("Return")])])))
        out.append((f"far jumps {n}", RSet([(Head(), [O("Jump", to=(0, n + 1))] + [O(f"o{k}") for k in range(n)] + [O("Jump", to=(0, 1))])])))
        out.append((f"one target {n}", RSet([(Head(), [O("a")] + [O("Jump" if k % 2 else "Call", to=(0, 0)) for k in range(n)])])))
        out.append((f"routines {n}", RSet([(Head(*((), ("ACTOR", ("i", k)), ("OBJECT", ("c", f"L{k}")), ("PERFORMER", ("i", 0)))[k % 4]), [O(f"o{k}"), O("Jump", to=((k * 3 + 1) % n, 0))]) for k in range(n)])))
        out.append((f"coroutines {n}", RSet([(Head("COROUTINE", None, f"N_{k}"), [O(f"o{k}"), O("Jump", to=((k * 5 + 1) % n // 5 * 5 + 1 if (k * 5 + 1) % n // 5 * 5 + 1 < n else 1, 1))] if k % 5 else []) for k in range(n)])))
    return [("big " + n, r) for n, r in out]
