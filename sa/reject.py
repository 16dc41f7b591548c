"""Schemata of statically meaningless programs (C10): every kind of offence in every kind of place."""
from __future__ import annotations

import itertools
import zlib

from . import families as fam
from .families import G, wrap
from .project import Project
from .spec import *
from .values import mkstr

LOOPS = ("forever", "while", "nwhile", "for")
CASES = ("case", "lastcase", "default", "middefault")


def h32(s):
    return zlib.crc32(s.encode())


class Raw(Node):
    """A statement given by its tokens."""

    def __init__(self, *ts):
        self.ts = ts

    def stmt(self):
        return self.mark(T(*self.ts))


def not_bit(x):
    return Cond(lambda: T("not") + x.toks() + T("[", "3", "]"), "BranchBit", [], "bit")


def neg_bits(g):
    v = lambda: not_bit(g.var())
    yield "if", [If([(False, [v()], [g.op()])])]
    yield "ifnot", [If([(True, [v()], [g.op()])])]
    yield "or1", [If([(False, [v(), g.cond()], [g.op()])])]
    yield "or2", [If([(False, [g.cond(), v()], [g.op()])])]
    yield "elseif", [If([(False, [g.cond()], [g.op()]), (False, [v()], [g.op()])])]
    yield "elseif2", [If([(False, [g.cond()], [g.op()]), (True, [g.cond(), v()], [])], [g.op()])]
    yield "elseif3", [If([(False, [c_bit(vc(PERF), 1, True)], [g.op()]), (False, [g.cond()], [g.op()]), (False, [v()], [g.op()])], [g.op()])]
    yield "while", [While(False, v(), [g.op()])]
    yield "whilenot", [While(True, v(), [g.op()])]
    yield "for", [For(g.op(), v(), g.op(), [g.op()])]
    yield "const", [If([(False, [not_bit(g.c())], [g.op()])])]
    yield "int", [If([(False, [not_bit(vi(5))], [g.op()])])]
    yield "empty body", [If([(False, [v()], [])])]


def jumps(g, x):
    """statements that refer to a label, in every form"""
    yield "jump", [Jump(x)]
    yield "call", [Call(x), g.op()]
    yield "cond", [If([(False, [g.cond()], [Jump(x)])]), g.op()]
    yield "nested call", [If([(True, [g.cond()], [g.op(), Call(x)])], [g.op()])]
    yield "case", [Switch(g.hdr(), [(g.case(), [Jump(x)]), (None, [g.op()])])]
    yield "default", [Switch(g.hdr(), [(g.case(), [g.op(), Break()]), (None, [Call(x)])])]
    yield "loop", [Forever([Jump(x), g.op()])]
    yield "with", [WithCtl("actor", g.c(), Jump(x))]
    yield "after return", [kw("return"), Jump(x)]
    yield "else", [If([(False, [g.cond()], [])], [Jump(x)])]
    yield "for init", [For(Jump(x), g.cond(), g.op(), [g.op()])]
    yield "twice", [Jump(x), g.op(), Jump(x)]


def switches(g):
    """switches that are meaningless for themselves"""
    e, o, b = (lambda: []), (lambda: [g.op()]), (lambda: [g.op(), Break()])
    c = lambda body: (g.case(), body)
    d = lambda body: (None, body)
    mk = lambda *cs: [Switch(g.hdr(), list(cs))]
    yield "empty end: c", mk(c([]))
    yield "empty end: d", mk(d([]))
    yield "empty end: oc", mk(c(o()), c([]))
    yield "empty end: od", mk(c(o()), d([]))
    yield "empty end: bc", mk(c(b()), c([]))
    yield "empty end: bd", mk(c(b()), d([]))
    yield "empty end: do c", mk(d(o()), c([]))
    yield "empty end: db c", mk(d(b()), c([]))
    yield "empty end: cc", mk(c([]), c([]))
    yield "empty end: ocd", mk(c(o()), c([]), d([]))
    yield "empty end: odc", mk(c(o()), d([]), c([]))
    yield "empty end: obbc", mk(c(o()), c(b()), c(b()), c([]))
    yield "two defaults: dd", mk(d(o()), d(o()))
    yield "two defaults: dcd", mk(d(o()), c(o()), d(o()))
    yield "two defaults: cdd", mk(c(b()), d(b()), d(b()))
    yield "two defaults: dcdc", mk(d(b()), c(o()), d(o()), c(o()))
    yield "two defaults: empty", mk(d([]), d(o()))
    yield "two defaults: empty2", mk(c([]), d([]), c(o()), d(b()))
    yield "two defaults: ddd", mk(d(o()), d(o()), d(o()))

    def ms(*parts):
        for w in ("message_SwitchTalk", "message_SwitchMonologue"):
            yield [Raw(w, "(", *[t.t for t in g.var().toks()], ")", "{", *[x for p in parts for x in p], "}")]

    cs = lambda n: ["case", str(n), ":", '"t"']
    ds = ["default", ":", '"t"']
    st = lambda: [g.name("o"), "(", ")", ";"]
    variants = {
        "message two defaults: dd": [ds, ds], "message two defaults: dcd": [ds, cs(1), ds], "message two defaults: cdcd": [cs(1), ds, cs(2), ds],
        "message statements: c": [["case", "1", ":"] + st()], "message statements: d": [["default", ":"] + st()],
        "message statements: cc": [cs(1), ["case", "2", ":"] + st()], "message statements: cd": [cs(1), ["default", ":"] + st()],
        "message statements: c c": [["case", "1", ":"] + st(), cs(2)], "message statements: dc": [["default", ":"] + st(), cs(2)],
        "message statements: two": [cs(1), ["case", "2", ":"] + st() + st(), ds],
        "message statements: label": [cs(1), ["case", "2", ":", "@", "lbl", ";"]],
        "message statements: break": [cs(1), ["case", "2", ":", "break", ";"], ds],
        "message statements: return": [["case", "2", ":", "return", ";"], ds],
        "message statements: if": [["case", "2", ":", "if", "(", "debug", ")", "{", "}"], ds],
        "message case: menu": [["case", "menu", "(", '"a"', ")", ":", '"t"']], "message case: menu2": [cs(1), ["case", "menu2", "(", "1", ")", ":", '"t"'], ds],
        "message case: op": [["case", ">", "2", ":", '"t"'], cs(1)], "message case: value": [cs(1), ["case", "<=", "value", "(", "$y", ")", ":", '"t"']],
        "message statements: assign": [cs(4), ["default", ":", "clear", "$x", ";"]],
    }
    for n, ps in variants.items():
        for i, x in enumerate(ms(*ps)):
            yield f"{n}{i}", x


def with_labels(g):
    for kind in ("actor", "object", "performer"):
        for sg in "@§":
            for idt in (g.c(), vi(3), g.var()):
                yield f"{kind}{sg}", [Raw("with", "(", kind, *[t.t for t in idt.toks()], ")", "{", sg, g.lab(), ";", "}")]


# ------------------------------------------------------------------------------------------------- places


def places(g0=None):
    """(name, in_loop, in_case, f(g, stmts) -> Program | Project)"""

    def routine(ctxs):
        def f(g, s):
            b = s
            for c in reversed(ctxs):
                b = wrap(c, g, b)
            return Program([rt(0, b)])

        return f

    loop = lambda cs: any(c in LOOPS for c in cs)
    case = lambda cs: any(c in CASES for c in cs)
    cx = [c for c in fam.CTXS if c != "macro"]
    for c in cx:
        yield f"{c}", loop([c]), case([c]), routine([c])
    for a, b in itertools.product([c for c in cx if c not in ("top", "top1")], repeat=2):
        yield f"{a}/{b}", loop([a, b]), case([a, b]), routine([a, b])
    yield "after loop", False, False, lambda g, s: Program([rt(0, [Forever([g.op(), BreakLoop()])] + s + [g.op()])])
    yield "after while", False, False, lambda g, s: Program([rt(0, [g.op(), While(False, g.cond(), [g.op(), Continue()])] + s)])
    yield "after for", False, False, lambda g, s: Program([rt(0, [g.op(), For(g.op(), g.cond(), g.op(), [g.op(), Continue(), BreakLoop()])] + s)])
    yield "after switch", False, False, lambda g, s: Program([rt(0, [Switch(g.hdr(), [(g.case(), [g.op(), Break()]), (None, [g.op()])])] + s)])
    yield "after switch in loop", True, False, lambda g, s: Program([rt(0, [Forever([Switch(g.hdr(), [(g.case(), [g.op(), Break()])])] + s)])])
    yield "after loop in case", False, True, lambda g, s: Program([rt(0, [Switch(g.hdr(), [(g.case(), [Forever([g.op(), BreakLoop()])] + s), (g.case(), [g.op()])])])])
    yield "after return", False, False, lambda g, s: Program([rt(0, [g.op(), kw("return")] + s)])
    yield "after jump", False, False, lambda g, s: (lambda L: Program([rt(0, [Label(L), g.op(), Jump(L)] + s)]))(g.lab())
    yield "second routine", False, False, lambda g, s: Program([rt(0, [g.op(), kw("return")]), rt(1, s), rt(2, [g.op()])])
    yield "coroutine", False, False, lambda g, s: Program([coro(g.name("N"), [g.op()] + s)])
    yield "target", False, False, lambda g, s: Program([rt(0, [g.op()]), rt_for(1, "actor", g.c(), s + [g.op()])])
    yield "routine after loop routine", False, False, lambda g, s: Program([rt(0, [Forever([g.op()])]), rt(1, s)])
    yield "routine after switch routine", False, False, lambda g, s: Program([rt(0, [Switch(g.hdr(), [(g.case(), [g.op()])])]), rt(1, s)])

    def mac(ctx, call, nest=0, where="before"):
        def f(g, s):
            m = g.name("m")
            items = [Macro(m, [], wrap(ctx, g, s) if ctx else s)]
            for _ in range(nest):
                n = g.name("m")
                items.append(Macro(n, [], [MacroCall(m)]))
                m = n
            if nest:
                items.reverse()
            r = rt(0, wrap(call, g, [MacroCall(m)]) + [g.op()] if call else [g.op()])
            return Program(items + [r] if where == "before" else [r] + items)

        return f

    for where in ("before", "after"):
        yield f"macro uncalled {where}", False, False, mac(None, None, 0, where)
        for call in ("top", "then", "case", "lastcase", "forever", "while", "for"):
            yield f"macro called in {call} {where}", False, False, mac(None, call, 0, where)
    for ctx in ("then", "else", "case", "default", "forever", "while"):
        yield f"macro body {ctx} uncalled", loop([ctx]), case([ctx]), mac(ctx, None)
        yield f"macro body {ctx} called", loop([ctx]), case([ctx]), mac(ctx, "forever")
    for n in (1, 2):
        yield f"nested macro {n}", False, False, mac(None, "forever", n)
        yield f"nested macro {n} case", False, False, mac(None, "case", n)
        yield f"nested macro {n} uncalled", False, False, mac(None, None, n)

    def imp(called, depth=1):
        def f(g, s):
            m = g.name("m")
            files = {"/v/a.exps": Program([Macro(m, [], s)])}
            first = "./a.exps"
            if depth == 2:
                files["/v/s/b.exps"] = Program([Macro(g.name("m"), [], [MacroCall(m)])], [Import("../a.exps")])
                first = "./s/b.exps"
            return Project(Program([rt(0, [Forever([MacroCall(m)])] if called else [g.op()])], [Import(first)]), files)

        return f

    for d in (1, 2):
        yield f"imported macro {d} called", False, False, imp(True, d)
        yield f"imported macro {d} uncalled", False, False, imp(False, d)


# ------------------------------------------------------------------------------------------------- whole programs


def macro_errors():
    """unknown / recursive macros, too few arguments"""

    def calls(n, edges, used, args=False, order=None):
        def b(g):
            ms = [g.name("m") for _ in range(n)]
            p = mkstr(["$", g.name("p")])
            un = g.name("u")
            items = []
            for i in range(n):
                body = [g.op()]
                for a, j in edges:
                    if a == i:
                        body.append(MacroCall(un if j is None else ms[j], [vc(p)] if args else []))
                items.append(Macro(ms[i], [p] if args else [], body))
            if order:
                items = [items[i] for i in order]
            r = rt(0, [MacroCall(ms[u] if u is not None else un, [vi(1)] if args else []) for u in used] or [g.op()])
            return Program(items + [r])

        return b

    yield "unknown: routine", calls(0, [], [None])
    yield "unknown: routine2", calls(1, [], [0, None])
    yield "unknown: macro uncalled", calls(1, [(0, None)], [])
    yield "unknown: macro called", calls(1, [(0, None)], [0])
    yield "unknown: deep", calls(3, [(0, 1), (1, 2), (2, None)], [0])
    yield "unknown: deep uncalled", calls(3, [(0, 1), (1, 2), (2, None)], [])
    for ctx in fam.CTXS:
        if ctx != "macro":
            yield f"unknown: in {ctx}", lambda g, ctx=ctx: Program([Macro(g.name("m"), [], [g.op()]), rt(0, wrap(ctx, g, [MacroCall(g.name("u"))]))])
            yield f"unknown: in macro {ctx}", lambda g, ctx=ctx: Program([Macro(g.name("m"), [], wrap(ctx, g, [MacroCall(g.name("u"))])), rt(0, [g.op()])])
    for used in ([], [0]):
        for args in (False, True):
            t = f"{len(used)}{args:d}"
            yield f"recursive: self {t}", calls(1, [(0, 0)], used, args)
            yield f"recursive: two {t}", calls(2, [(0, 1), (1, 0)], used, args)
            yield f"recursive: two+ {t}", calls(3, [(0, 1), (1, 2), (2, 1)], used, args)
            yield f"recursive: tail {t}", calls(3, [(0, 1), (1, 0), (2, 0)], used, args)
            yield f"recursive: self tail {t}", calls(3, [(0, 1), (1, 2), (2, 2)], used, args)
            for o in itertools.permutations(range(3)):
                yield f"recursive: three {t}{o}", calls(3, [(0, 1), (1, 2), (2, 0)], used, args, o)
            yield f"recursive: four {t}", calls(4, [(0, 1), (1, 2), (2, 3), (3, 0)], used, args)
            yield f"recursive: diamond {t}", calls(4, [(0, 1), (0, 2), (1, 3), (2, 3), (3, 0)], used, args)
    # every call graph with a cycle on 3 macros
    pairs = [(i, j) for i in range(3) for j in range(3)]
    for bits in range(1 << 9):
        e = [p for k, p in enumerate(pairs) if bits >> k & 1]
        reach = {(a, b) for a, b in e}
        for k in range(3):
            for i in range(3):
                for j in range(3):
                    if (i, k) in reach and (k, j) in reach:
                        reach.add((i, j))
        if any((i, i) in reach for i in range(3)):
            yield f"recursive: graph {bits}", calls(3, e, [0] if bits % 2 else [])

    def blocks(ctx):
        def b(g):
            m, n = g.name("m"), g.name("m")
            return Program([Macro(m, [], wrap(ctx, g, [MacroCall(n)])), Macro(n, [], wrap(ctx, g, [MacroCall(m)])), rt(0, [MacroCall(m)])])

        return b

    for ctx in fam.CTXS:
        if ctx != "macro":
            yield f"recursive: in {ctx}", blocks(ctx)

    def rec_import(kind):
        def b(g):
            a, c = g.name("m"), g.name("m")
            if kind == "imported":
                return Project(Program([rt(0, [g.op()])], [Import("./a.exps")]), {"/v/a.exps": Program([Macro(a, [], [MacroCall(c)]), Macro(c, [], [MacroCall(a)])])})
            return Project(Program([rt(0, [g.op()])], [Import("./a.exps")]), {"/v/a.exps": Program([Macro(a, [], [MacroCall(a)])])})

        return b

    yield "recursive: imported", rec_import("imported")
    yield "recursive: imported self", rec_import("self")
    # a macro of the main file that an imported macro would need
    yield "unknown: importing file's macro", lambda g: (lambda a, c: Project(Program([Macro(c, [], [g.op()]), rt(0, [MacroCall(a)])], [Import("./a.exps")]), {"/v/a.exps": Program([Macro(a, [], [MacroCall(c)])])}))(g.name("m"), g.name("m"))
    yield "unknown: other import's macro", lambda g: (lambda a, c: Project(Program([rt(0, [MacroCall(a)])], [Import("./a.exps"), Import("./c.exps")]), {"/v/a.exps": Program([Macro(a, [], [MacroCall(c)])]), "/v/c.exps": Program([Macro(c, [], [g.op()])])}))(g.name("m"), g.name("m"))
    for n in (1, 2, 3):
        for k in range(n):
            def few(g, n=n, k=k, where=0):
                ps = [mkstr(["$", g.name("p")]) for _ in range(n)]
                m, u = g.name("m"), g.name("m")
                c = MacroCall(m, [vi(i) for i in range(k)])
                M = Macro(m, ps, [g.op(vc(ps[-1]), vc(ps[0]))])
                E = Macro(m, ps, [g.op()])
                if where == 0:
                    return Program([M, rt(0, [c])])
                if where == 1:
                    return Program([M, Macro(u, [], [c]), rt(0, [g.op()])])
                if where == 2:
                    return Program([Macro(u, ps[:1], [MacroCall(m, [vc(ps[0])] * k)]), M, rt(0, [MacroCall(u, [vi(1)])])])
                if where == 3:
                    return Program([E, rt(0, [If([(False, [g.cond()], [c])]), g.op()])])
                if where == 4:
                    return Program([E, rt(0, [Switch(g.hdr(), [(g.case(), [c, Break()])])]), rt(1, [g.op()])])
                return Project(Program([rt(0, [c])], [Import("./a.exps")]), {"/v/a.exps": Program([M])})

            for w in range(6):
                yield f"few args: {k} of {n} @{w}", lambda g, few=few, w=w: few(g, where=w)


def import_errors():
    m = lambda g: Program([Macro(g.name("m"), [], [g.op()])])
    R = lambda g: rt(0, [g.op()])
    for p in ("./no.exps", "../no.exps", "/no/a.exps", "no.exps", "s/no.exps", "./s/no.exps", "..", ".", "./", "/", "", "a", "./a", "a/../a.exps", "s/./a.exps"):
        for lk in (None, ["/l1", "/l2"]):
            yield f"missing: {p!r} {bool(lk)}", lambda g, p=p, lk=lk: Project(Program([R(g)], [Import(p)]), {"/v/a.exps": m(g)}, lk)
            yield f"missing: second {p!r} {bool(lk)}", lambda g, p=p, lk=lk: Project(Program([R(g)], [Import("./a.exps"), Import(p)]), {"/v/a.exps": m(g)}, lk)
            yield f"missing: nested {p!r} {bool(lk)}", lambda g, p=p, lk=lk: Project(Program([R(g)], [Import("./s/a.exps")]), {"/v/s/a.exps": Program([Macro(g.name("m"), [], [g.op()])], [Import(p)])}, lk)
    yield "missing: beside file, no lookup", lambda g: Project(Program([R(g)], [Import("a.exps")]), {"/v/a.exps": m(g)})
    yield "missing: beside main, nested", lambda g: Project(Program([R(g)], [Import("./s/a.exps")]), {"/v/s/a.exps": Program([Macro(g.name("m"), [], [g.op()])], [Import("./b.exps")]), "/v/b.exps": m(g)})
    yield "missing: dots in lookup", lambda g: Project(Program([R(g)], [Import("x/../a.exps")]), {"/l1/a.exps": m(g), "/l1/x/b.exps": m(g)}, ["/l1"])

    def cyc(paths, imps, lookup=None, main_imps=None, main="/v/main.exps"):
        def b(g):
            files = {p: Program([Macro(g.name("m"), [], [g.op()])], [Import(i) for i in imps[k]]) for k, p in enumerate(paths)}
            prog = Program([R(g)], [Import(x) for x in main_imps])
            pr = Project(prog, files, lookup, main)
            return pr

        return b

    yield "cyclic: self", cyc([], [], None, ["./main.exps"])
    yield "cyclic: self abs", cyc([], [], None, ["/v/main.exps"])
    yield "cyclic: self via up", cyc([], [], None, ["../v/main.exps"])
    yield "cyclic: self lookup", cyc([], [], ["/v"], ["main.exps"])
    yield "cyclic: back", cyc(["/v/a.exps"], [["./main.exps"]], None, ["./a.exps"])
    yield "cyclic: back sub", cyc(["/v/s/a.exps"], [["../main.exps"]], None, ["./s/a.exps"])
    yield "cyclic: back abs", cyc(["/x/a.exps"], [["/v/main.exps"]], None, ["/x/a.exps"])
    yield "cyclic: back lookup", cyc(["/l/a.exps"], [["main.exps"]], ["/l", "/v"], ["a.exps"])
    yield "cyclic: imported self", cyc(["/v/a.exps"], [["./a.exps"]], None, ["./a.exps"])
    yield "cyclic: imported self lookup", cyc(["/l/a.exps"], [["a.exps"]], ["/l"], ["a.exps"])
    yield "cyclic: two imported", cyc(["/v/a.exps", "/v/b.exps"], [["./b.exps"], ["./a.exps"]], None, ["./a.exps"])
    yield "cyclic: two imported dirs", cyc(["/v/s/a.exps", "/v/t/b.exps"], [["../t/b.exps"], ["../s/a.exps"]], None, ["./s/a.exps"])
    yield "cyclic: two imported lookup", cyc(["/l/a.exps", "/k/b.exps"], [["b.exps"], ["a.exps"]], ["/l", "/k"], ["a.exps"])
    yield "cyclic: three", cyc(["/v/a.exps", "/v/b.exps", "/v/c.exps"], [["./b.exps"], ["./c.exps"], ["./a.exps"]], None, ["./a.exps"])
    yield "cyclic: three to main", cyc(["/v/a.exps", "/v/b.exps", "/v/c.exps"], [["./b.exps"], ["./c.exps"], ["./main.exps"]], None, ["./a.exps"])
    yield "cyclic: three to second", cyc(["/v/a.exps", "/v/b.exps", "/v/c.exps"], [["./b.exps"], ["./c.exps"], ["./b.exps"]], None, ["./a.exps"])
    yield "cyclic: second import", cyc(["/v/a.exps", "/v/b.exps"], [[], ["./main.exps"]], None, ["./a.exps", "./b.exps"])
    yield "cyclic: second import in sub", cyc(["/v/a.exps", "/v/b.exps"], [["./b.exps", "./a.exps"], []], None, ["./a.exps"])
    yield "cyclic: mixed spelling", cyc(["/v/a.exps", "/v/b.exps"], [["/v/b.exps"], ["../v/a.exps"]], None, ["./a.exps"])
    yield "cyclic: after diamond", cyc(["/v/a.exps", "/v/b.exps", "/v/c.exps"], [["./c.exps"], ["./c.exps", "./b.exps"], []], None, ["./a.exps", "./b.exps"])

    def routines(kind, pos, depth, lookup=None):
        def b(g):
            r = {"generic": lambda: rt(0, [g.op()]), "coro": lambda: coro(g.name("N"), [g.op()]), "actor": lambda: rt_for(0, "actor", g.c(), [g.op()]),
                 "object": lambda: rt_for(0, "object", vi(1), [g.op()], 1), "performer": lambda: rt_for(0, "performer", g.c(), [g.op()], 2),
                 "alias": lambda: rt(0, None, alias=True), "coro alias": lambda: coro(g.name("N"), None, alias=True)}[kind]()
            M = [Macro(g.name("m"), [], [g.op()]), Macro(g.name("m"), [], [g.op()])]
            its = {"only": [r], "first": [r] + M, "last": M + [r], "mid": [M[0], r, M[1]]}[pos]
            if depth == 1:
                if lookup:
                    return Project(Program([R(g)], [Import("a.exps")]), {"/l/a.exps": Program(its)}, ["/l"])
                return Project(Program([R(g)], [Import("./a.exps")]), {"/v/a.exps": Program(its)})
            if depth == 2:
                return Project(Program([R(g)], [Import("./b.exps")]), {"/v/a.exps": Program(its), "/v/b.exps": Program([Macro(g.name("m"), [], [g.op()])], [Import("./a.exps")])})
            return Project(Program([R(g)], [Import("./b.exps"), Import("./a.exps")]), {"/v/a.exps": Program(its), "/v/b.exps": m(g)})

        return b

    for kind in ("generic", "coro", "actor", "object", "performer", "alias", "coro alias"):
        for pos in ("only", "first", "last", "mid"):
            for d in (1, 2, 3):
                yield f"routine: {kind} {pos} {d}", routines(kind, pos, d)
            yield f"routine: {kind} {pos} lookup", routines(kind, pos, 1, True)


def label_errors():
    """undefined labels whose name is defined somewhere that does not count"""
    for jn in ("jump", "call", "cond", "with", "case"):
        def pick(g, x, jn=jn):
            return dict(jumps(g, x))[jn]

        yield f"label of macro from routine {jn}", lambda g, pick=pick: (lambda L, m: Program([Macro(m, [], [Label(L), g.op()]), rt(0, [MacroCall(m)] + pick(g, L))]))(g.lab(), g.name("m"))
        yield f"label of uncalled macro from routine {jn}", lambda g, pick=pick: (lambda L, m: Program([Macro(m, [], [Label(L), g.op()]), rt(0, pick(g, L) + [g.op()])]))(g.lab(), g.name("m"))
        yield f"label of routine from macro {jn}", lambda g, pick=pick: (lambda L, m: Program([Macro(m, [], pick(g, L)), rt(0, [Label(L), g.op(), MacroCall(m), g.op()])]))(g.lab(), g.name("m"))
        yield f"label of routine from uncalled macro {jn}", lambda g, pick=pick: (lambda L, m: Program([Macro(m, [], pick(g, L)), rt(0, [Label(L), g.op()])]))(g.lab(), g.name("m"))
        for o in (0, 1):
            def mm(g, o=o, pick=pick, used=True):
                L, m, n = g.lab(), g.name("m"), g.name("m")
                A, B = Macro(m, [], pick(g, L) + [g.op()]), Macro(n, [], [Label(L), g.op()])
                return Program(([A, B] if o else [B, A]) + [rt(0, [MacroCall(m), MacroCall(n)] if used else [g.op()])])

            yield f"label of other macro {jn}{o}", mm
            yield f"label of other macro uncalled {jn}{o}", lambda g, mm=mm: mm(g, used=False)

        def outer(g, pick=pick):
            L, m, n = g.lab(), g.name("m"), g.name("m")
            return Program([Macro(m, [], pick(g, L)), Macro(n, [], [Label(L), MacroCall(m), g.op()]), rt(0, [MacroCall(n)])])

        yield f"label of calling macro {jn}", outer

        def inner(g, pick=pick):
            L, m, n = g.lab(), g.name("m"), g.name("m")
            return Program([Macro(m, [], [Label(L), g.op()]), Macro(n, [], [MacroCall(m)] + pick(g, L)), rt(0, [MacroCall(n)])])

        yield f"label of called macro {jn}", inner
        yield f"label of imported macro {jn}", lambda g, pick=pick: (lambda L, m: Project(Program([rt(0, [MacroCall(m)] + pick(g, L))], [Import("./a.exps")]), {"/v/a.exps": Program([Macro(m, [], [Label(L), g.op()])])}))(g.lab(), g.name("m"))


STRAY = {"break": Break, "continue": Continue, "break_loop": BreakLoop}


def strays(tier):
    """break, continue, break_loop after (and in the branches next to) every construct: what a construct opens it closes"""
    def after(b, K, ctx, how):
        def f(g):
            L = g.lab()
            s = b(g, L)
            if how == "after":
                s = s + [K()]
            elif how == "then":
                s = s + [g.op(), If([(False, [g.cond()], [K()])])]
            else:
                s = [If([(False, [g.cond()], s)], [K()])]
            s = s + [g.op()]
            return Program([rt(0, [Label(L)] + wrap(ctx, g, s))])

        return f

    for ctx in ("top1", "then", "forever", "case", "while", "default"):
        for nm, b in fam.constructs("top1", fam.KEY + ["r", "i", "W", "s"], ["", "o"] if tier == "quick" else fam.KEY):
            if nm.startswith("seq"):
                continue
            loop = nm.startswith(("for", "while"))
            for w, K in STRAY.items():
                if w == "break" and fam.in_case(ctx) or w != "break" and fam.in_loop(ctx):
                    continue
                for how in ("after", "then", "else"):
                    full = f"{w} outside {'case' if w == 'break' else 'loop'} @ {how} {nm} in {ctx}"
                    if ctx == "top1" and how == "after" and (loop or nm.startswith("switch") and w == "break") or h32(full) % (24 if tier == "quick" else 4) == 0:
                        yield full, after(b, K, ctx, how)


def programs(tier):
    """(name, builder(g) -> Program | Project), all of them meaningless"""
    pl = list(places())
    for pn, il, ic, f in pl:
        if not ic:
            yield f"break outside case @ {pn}", lambda g, f=f: f(g, [Break()])
            yield f"break outside case+ @ {pn}", lambda g, f=f: f(g, [g.op(), Break(), g.op()])
            yield f"break in with @ {pn}", lambda g, f=f: f(g, [WithCtl("actor", g.c(), Break())])
            if not il:
                yield f"break in loop @ {pn}", lambda g, f=f: f(g, [Forever([If([(False, [g.cond()], [Break()])])])])
        if not il:
            for w, K in (("continue", Continue), ("break_loop", BreakLoop)):
                yield f"{w} outside loop @ {pn}", lambda g, f=f, K=K: f(g, [K()])
                yield f"{w} outside loop+ @ {pn}", lambda g, f=f, K=K: f(g, [g.op(), If([(False, [g.cond()], [K()])]), g.op()])
                yield f"{w} in with @ {pn}", lambda g, f=f, K=K: f(g, [WithCtl("object", g.c(), K())])
                if not ic:
                    yield f"{w} in case @ {pn}", lambda g, f=f, K=K: f(g, [Switch(g.hdr(), [(g.case(), [K()])])])
        main = "/" not in pn
        for k, (jn, _s) in enumerate(jumps(G(), "x")):
            if main or (k + len(pn)) % 4 == 0:
                yield f"undefined label {jn} @ {pn}", lambda g, f=f, jn=jn: f(g, dict(jumps(g, g.lab()))[jn])
        for k, (sn, _s) in enumerate(switches(G())):
            if main and not pn.startswith(("nested", "imported")) or (k + len(pn)) % 7 == 0:
                yield f"{sn} @ {pn}", lambda g, f=f, sn=sn: f(g, dict(switches(g))[sn])
        for k, (nn, _s) in enumerate(neg_bits(G())):
            if main or (k + len(pn)) % 5 == 0:
                yield f"not bit {nn} @ {pn}", lambda g, f=f, nn=nn: f(g, dict(neg_bits(g))[nn])
        for k, (wn, _s) in enumerate(with_labels(G())):
            if (k + len(pn)) % (3 if main else 9) == 0:
                yield f"label in with {wn}{k} @ {pn}", lambda g, f=f, k=k: f(g, list(with_labels(g))[k][1])
        if main:
            yield f"unknown macro @ {pn}", lambda g, f=f: f(g, [MacroCall(g.name("u"))])
            yield f"unknown macro args @ {pn}", lambda g, f=f: f(g, [g.op(), MacroCall(g.name("u"), [vi(1), g.c()]), g.op()])
    yield from strays(tier)
    for n, b in label_errors():
        yield "undefined " + n, b
    for n, b in macro_errors():
        yield n, b
    for n, b in import_errors():
        yield n, b
