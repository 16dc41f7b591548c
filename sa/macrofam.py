"""Schemata of programs with macros and imports."""
from __future__ import annotations

import itertools

from . import families as fam
from . import bigfam, forms
from .families import G, _b, wrap
from .project import Project
from .spec import *
from .values import mkstr


# ----------------------------------------------------------------------------------------------- call graphs


def dags(n):
    """All labelled acyclic call graphs on n macros (edge i->j: macro i calls macro j)."""
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for bits in range(1 << len(pairs)):
        e = [p for k, p in enumerate(pairs) if bits >> k & 1]
        out = {i: [j for a, j in e if a == i] for i in range(n)}
        state = {}

        def cyc(v):
            state[v] = 1
            for w in out[v]:
                if state.get(w) == 1 or (w not in state and cyc(w)):
                    return True
            state[v] = 2
            return False

        if any(v not in state and cyc(v) for v in range(n)):
            continue
        yield out


def dag_program(n, out, g, reverse=False, style=0):
    names = [g.name("m") for _ in range(n)]
    ms = []
    for i in range(n):
        kids = out[i][::-1] if reverse else out[i]
        body = []
        if style != 1:
            body.append(g.op())
        for j in kids:
            body.append(MacroCall(names[j]))
        if style != 2:
            body.append(g.op())
        ms.append(Macro(names[i], [], body))
    return Program(ms + [rt(0, [MacroCall(m) for m in names])])


# ----------------------------------------------------------------------------------------------- parameters


class GP(G):
    """Operands are the macro's parameters wherever the grammar lets a variable stand."""

    def __init__(self, abstract, params):
        super().__init__(abstract)
        self.params = params
        self.k = 0

    def var(self):
        self.k += 1
        return vc(self.params[self.k % len(self.params)])

    def c(self):
        return self.var()


def argkinds(g):
    return [
        vi(7), g.c(), g.var(), vi(-300), vfx("1.5"), vs("text"), vl([("english", "a"), ("french", "b")]), vp("mk", 3, 4),
    ]


# kinds of argument that may stand for an operand of every form (a condition on a string would be no program)
def ends_program(b, g):
    """A macro whose last block ends on an op that is run for another object."""
    m = Macro(g.name("m"), [], b(g))
    return Program([m, rt(0, [g.op(), MacroCall(m.name), g.op(), If([(True, [g.cond()], [MacroCall(m.name)])], [g.op()]), g.op(), kw("end")])])


def param_program(b, g0, kind):
    p, q = mkstr(["$", g0.name("p")]), mkstr(["$", g0.name("p")])
    g = GP(g0.abstract, [p, q])
    g.n = g0.n
    body = [g.op()] + b(g) + [g.op()]
    g0.n = g.n
    m = g0.name("m")
    ks = argkinds(g0)
    a1, a2 = ks[kind % 3], ks[(kind + 1) % 3]
    return Program([Macro(m, [p, q], body), rt(0, [MacroCall(m, [a1, a2]), g0.op(), MacroCall(m, [a2, a1]), kw("return")])])


def arg_programs():
    """Every kind of argument, handed through 1..3 levels, reordered, repeated, dropped."""
    n = len(argkinds(G()))
    for i in range(n):
        for j in range(n):
            def b(g, i=i, j=j):
                x, y, m, o = [mkstr(["$", g.name("p")]) for _ in range(2)] + [g.name("m"), g.name("m")]
                return Program([
                    Macro(m, [x, y], [g.op(vc(x)), g.op(vc(y), vi(1), vc(x)), g.op(vc(y), vc(y))]),
                    Macro(o, [y, x], [MacroCall(m, [vc(x), vc(y)]), MacroCall(m, [vc(y), vi(5)]), g.op(vc(x), vc(y))]),
                    rt(0, [MacroCall(m, [argkinds(g)[i], argkinds(g)[j]]), MacroCall(o, [argkinds(g)[j], argkinds(g)[i]])]),
                ])

            yield f"args:{i},{j}", b
    for i in range(n):
        def b(g, i=i):
            x, y, z = (mkstr(["$", g.name("p")]) for _ in range(3))
            a, b_, c = g.name("m"), g.name("m"), g.name("m")
            return Program([
                Macro(c, [z, x], [MacroCall(b_, [vc(x), vc(z), vc(x)])]),
                Macro(b_, [x, y, z], [MacroCall(a, [vc(z)]), g.op(vc(y)), MacroCall(a, [vc(x)])]),
                Macro(a, [x], [g.op(vc(x), g.var()), op(g.name("o"), vc(x), trailing=True)]),
                rt(0, [MacroCall(c, [argkinds(g)[i], g.c()]), MacroCall(c, [g.c(), argkinds(g)[i]])]),
            ])

        yield f"deep:{i}", b
    def none(g):
        m, x = g.name("m"), mkstr(["$", g.name("p")])
        return Program([Macro(m, [x], [Label(g.lab())]), rt(0, [g.op(), MacroCall(m, [vi(1)]), g.op()])])

    yield "emptymacro", none

    def none2(g):
        m, n, x = g.name("m"), g.name("m"), mkstr(["$", g.name("p")])
        return Program([Macro(m, [], [Label(g.lab())]), Macro(n, [x], [MacroCall(m), g.op(vc(x)), MacroCall(m)]), rt(0, [MacroCall(n, [vi(1)]), MacroCall(m), MacroCall(n, [g.c()]), g.op()])])

    yield "emptymacro nested", none2


# ----------------------------------------------------------------------------------------------- bodies and surroundings

MB = ["o", "r", "or", "ro", "j", "oj", "E", "oH", "a", "w", "t", "xo", "ox", "k", "ok", "i", "I", "n", "u", "R", "s", "S", "f", "W", "F", "V", "jo", "ir", "Ro", "so", "iI"]
MLP = ["start", "end", "mid"]


def macro_body(g, shape, lp, nested):
    L = g.lab()
    b = _b(shape)(g, L)
    if lp == "start":
        b = [Label(L)] + b
    elif lp == "end":
        b = b + [Label(L)]
    elif lp == "mid":
        b = b + [Label(L), g.op()]
    return b


def body_programs():
    for ctx in fam.CTXS:
        if ctx == "macro":
            continue
        for sh in MB:
            hasj = any(c in sh for c in "jkut")
            for lp in (MLP if hasj else [None]):
                for after in ("", "o", "c"):
                    def b(g, ctx=ctx, sh=sh, lp=lp, after=after):
                        m = g.name("m")
                        inner = [MacroCall(m)]
                        if after == "o":
                            inner.append(g.op())
                        if after == "c":
                            inner.append(MacroCall(m))
                        return Program([Macro(m, [], macro_body(g, sh, lp, False)), rt(0, wrap(ctx, g, inner) + [g.op()])])

                    yield f"body:{ctx}|{sh}|{lp}|{after}", b


def return_programs():
    for outer in ("", "o"):
        for sh in ("r", "or", "ir", "R", "ro"):
            for where in ("plain", "then", "forever", "case"):
                def b(g, outer=outer, sh=sh, where=where):
                    m, n = g.name("m"), g.name("m")
                    L = g.lab()
                    inner = [MacroCall(m)] + (_b(outer)(g, L))
                    if where == "then":
                        inner = [If([(False, [g.cond()], [MacroCall(m)])], [kw("return")])] + _b(outer)(g, L)
                    if where == "forever":
                        inner = [Forever([MacroCall(m), If([(False, [g.cond()], [BreakLoop()])])])] + _b(outer)(g, L)
                    if where == "case":
                        inner = [Switch(g.hdr(), [(g.case(), [MacroCall(m), Break()]), (None, [kw("return")])])] + _b(outer)(g, L)
                    return Program([Macro(n, [], inner), Macro(m, [], _b(sh)(g, L)), rt(0, [MacroCall(n), g.op(), MacroCall(n), MacroCall(m), kw("end")]), rt(1, [MacroCall(m)])])

                yield f"ret:{outer}|{sh}|{where}", b


def label_programs():
    """Labels of macros are private: same names in several macros, in the routine, in nested expansions."""

    def same(order):
        def b(g):
            L = g.lab()
            m, n = g.name("m"), g.name("m")
            M1 = Macro(m, [], [Label(L), g.op(), If([(False, [g.cond()], [Jump(L)])]), g.op()])
            M2 = Macro(n, [], [g.op(), Label(L), MacroCall(m), If([(False, [g.cond()], [Jump(L)])]), MacroCall(m)])
            R = rt(0, [g.op(), Label(L), MacroCall(n), MacroCall(m), If([(False, [g.cond()], [Jump(L)])]), MacroCall(n), g.op()])
            return Program([[M1, M2, R], [M2, M1, R], [R, M2, M1], [M1, R, M2]][order])

        return b

    for i in range(4):
        yield f"samelabel:{i}", same(i)

    def callback(kind):
        def b(g):
            L, K = g.lab(), g.lab()
            m = g.name("m")
            M1 = Macro(m, [], [kind(K), Label(L), g.op(), kw("return"), Label(K), g.op(), Jump(L)])
            return Program([M1, rt(0, [MacroCall(m), MacroCall(m), g.op()]), rt(1, [If([(False, [g.cond()], [MacroCall(m)])]), g.op()])])

        return b

    yield "fwd:jump", callback(Jump)
    yield "fwd:call", callback(Call)

    def endl(g):
        L = g.lab()
        m = g.name("m")
        return Program([Macro(m, [], [If([(False, [g.cond()], [Jump(L)])]), g.op(), Label(L)]), rt(0, [MacroCall(m)]), rt(1, [MacroCall(m), MacroCall(m)]), rt(2, [g.op()])])

    yield "endlabel", endl


# ----------------------------------------------------------------------------------------------- imports


def imp_programs():
    def f_(*args):
        return args

    def mac(g, name, calls=(), ret=False):
        return Macro(name, [], [g.op()] + [MacroCall(c) for c in calls] + [g.op()])

    def chain(paths, imports, lookup=None, order=None):
        """paths[i]: where file i lies; imports[i]: how file i-1 names it. Macro i calls macro i+1."""

        def b(g):
            n = len(paths)
            names = [g.name("m") for _ in range(n)]
            files = {}
            for i in range(n):
                prog = Program([mac(g, names[i], names[i + 1:i + 2])], [Import(imports[i + 1])] if i + 1 < n else [])
                files[paths[i]] = prog
            main = Program([rt(0, [MacroCall(x) for x in names] + [g.op()])], [Import(imports[0])])
            return Project(main, files, lookup)

        return b

    yield "imp:rel", chain(["/v/a.exps"], ["./a.exps"])
    yield "imp:reldir", chain(["/v/s/a.exps"], ["./s/a.exps"])
    yield "imp:up", chain(["/a.exps"], ["../a.exps"])
    yield "imp:abs", chain(["/lib/x/a.exps"], ["/lib/x/a.exps"])
    yield "imp:chain rel", chain(["/v/s/a.exps", "/v/s/b.exps", "/v/c.exps"], ["./s/a.exps", "./b.exps", "../c.exps"])
    yield "imp:chain dirs", chain(["/v/s/a.exps", "/v/t/a.exps", "/w/a.exps"], ["./s/a.exps", "../t/a.exps", "../../w/a.exps"])
    yield "imp:chain abs", chain(["/x/a.exps", "/x/y/b.exps", "/v/s/c.exps"], ["/x/a.exps", "./y/b.exps", "/v/s/c.exps"])
    yield "imp:lookup", chain(["/l1/a.exps"], ["a.exps"], ["/l1"])
    yield "imp:lookup2", chain(["/l2/p/a.exps"], ["p/a.exps"], ["/l1", "/l2"])
    yield "imp:lookup nested", chain(["/l1/a.exps", "/l2/q/b.exps", "/l1/c.exps"], ["a.exps", "q/b.exps", "c.exps"], ["/l1", "/l2"])
    yield "imp:lookup then rel", chain(["/l1/d/a.exps", "/l1/d/b.exps", "/l2/c.exps"], ["d/a.exps", "./b.exps", "c.exps"], ["/l1", "/l2"])

    def shadow(first):
        def b(g):
            n = g.name("m")
            f1, f2 = Program([mac(g, n)]), Program([mac(g, n)])
            lk = ["/l1", "/l2"] if first == 1 else ["/l2", "/l1"]
            files = {"/l1/a.exps": f1, "/l2/a.exps": f2}
            pr = Project(Program([rt(0, [MacroCall(n)])], [Import("a.exps")]), files, lk, macros={n: (f1 if first == 1 else f2).macros[0]})
            return pr

        return b

    yield "imp:lookup order 1", shadow(1)
    yield "imp:lookup order 2", shadow(2)

    def shadow_dir(g):
        n = g.name("m")
        f1, f2 = Program([mac(g, n)]), Program([mac(g, n)])
        # the file beside the importing file does not count for a lookup import
        return Project(Program([rt(0, [MacroCall(n)])], [Import("a.exps")]), {"/v/a.exps": f1, "/l2/a.exps": f2}, ["/l2"], macros={n: f2.macros[0]})

    yield "imp:lookup ignores own dir", shadow_dir

    def rel_vs_main(g):
        n = g.name("m")
        k = g.name("m")
        fa = Program([mac(g, k, [n])], [Import("./b.exps")])
        fb, fm = Program([mac(g, n)]), Program([mac(g, g.name("m"))])
        return Project(Program([rt(0, [MacroCall(k), MacroCall(n)])], [Import("./s/a.exps")]), {"/v/s/a.exps": fa, "/v/s/b.exps": fb, "/v/b.exps": fm})

    yield "imp:relative to importing file", rel_vs_main

    def two(g):
        a, b, c, d = (g.name("m") for _ in range(4))
        fa = Program([mac(g, a)])
        fb = Program([mac(g, b)])
        main = Program([mac(g, d, [c, a]), mac(g, c, [b, a]), rt(0, [MacroCall(d), MacroCall(c), MacroCall(b), MacroCall(a)])], [Import("./a.exps"), Import("./s/b.exps")])
        return Project(main, {"/v/a.exps": fa, "/v/s/b.exps": fb})

    yield "imp:two files", two

    def diamond(g):
        a, b, c = (g.name("m") for _ in range(3))
        fa = Program([mac(g, a, [c])], [Import("./c.exps")])
        fb = Program([mac(g, b, [c])], [Import("../c.exps")])
        fc = Program([mac(g, c)])
        return Project(Program([rt(0, [MacroCall(x) for x in (a, b, c)])], [Import("./a.exps"), Import("./s/b.exps")]), {"/v/a.exps": fa, "/v/s/b.exps": fb, "/v/c.exps": fc})

    yield "imp:diamond", diamond

    def import_graph(edges, tops):
        """files a..: each has a macro that calls those of the files it imports; the main file imports some, in this order"""

        def b(g):
            n = 1 + max([x for e in edges for x in e] + list(tops))
            ms = [g.name("m") for _ in range(n)]
            fs = {}
            for i in range(n):
                kids = [c for p, c in edges if p == i]
                fs[f"/v/{'abcde'[i]}.exps"] = Program([mac(g, ms[i], [ms[c] for c in kids])], [Import(f"./{'abcde'[c]}.exps") for c in kids])
            return Project(Program([rt(0, [MacroCall(ms[t]) for t in tops] + [kw("end")])], [Import(f"./{'abcde'[t]}.exps") for t in tops]), fs)

        return b

    for edges in itertools.chain.from_iterable(itertools.combinations([(a, c) for a in range(3) for c in range(3) if a != c], k) for k in range(7)):
        out = {i: {c for p, c in edges if p == i} for i in range(3)}
        if any(i in out[j] and j in out[i] for i in range(3) for j in range(i)) or {0: 1, 1: 2, 2: 0} == {i: min(out[i], default=None) for i in out} or {0: 2, 2: 1, 1: 0} == {i: min(out[i], default=None) for i in out}:
            continue
        for k in (1, 2, 3):
            for tops in itertools.permutations(range(3), k):
                seen, todo = set(), list(tops)
                while todo:
                    x = todo.pop()
                    seen.add(x)
                    todo += [c for c in out[x] if c not in seen]
                if seen == set(range(max(seen) + 1)):
                    yield f"imp:graph {''.join('abc'[p] + 'abc'[c] + ' ' for p, c in edges)}from {''.join('abc'[t] for t in tops)}", import_graph(edges, tops)

    def mixed(order):
        def b(g):
            # the imported file has three macros that use one another in both directions of the text, and an own import
            a1, a2, a3, z = (g.name("m") for _ in range(4))
            x = mkstr(["$", g.name("p")])
            A = [Macro(a1, [x], [g.op(vc(x)), MacroCall(a2, [vc(x)]), MacroCall(z), kw("return"), g.op()]),
                 Macro(a2, [x], [MacroCall(a3, [vi(3)]), g.op(vc(x))]),
                 Macro(a3, [x], [If([(False, [c_op(vc(x), "==", vi(1))], [g.op(vc(x)), kw("return")])]), g.op()])]
            A = [A[i] for i in order]
            fa = Program(A, [Import("./z.exps")])
            fz = Program([mac(g, z)])
            own = g.name("m")
            main = Program([Macro(own, [], [MacroCall(a1, [vi(5)]), MacroCall(z), g.op(), MacroCall(a3, [g.c()])]), rt(0, [MacroCall(own), g.op(), MacroCall(a2, [vs("s")])]), rt(1, [MacroCall(z), MacroCall(own)])], [Import("./s/a.exps")])
            return Project(main, {"/v/s/a.exps": fa, "/v/s/z.exps": fz})

        return b

    for k, o in enumerate(itertools.permutations(range(3))):
        yield f"imp:mixed{k}", mixed(o)

    def posm(g):
        a, b = g.name("m"), g.name("m")
        x = mkstr(["$", g.name("p")])
        fa = Program([Macro(a, [x], [g.op(vp("pa", 3, 4), vc(x)), MacroCall(b)]), Macro(b, [], [g.op(vp("pb", 7, 0), vp("pc", 0, 1))])])
        return Project(Program([rt(0, [g.op(vp("p0", 1, 1)), MacroCall(a, [vp("p1", 2, 2)]), g.op(vp("p2", 5, 5))])], [Import("./a.exps")]), {"/v/a.exps": fa})

    yield "imp:posmarks", posm


def posmark_programs():
    def p1(g):
        a, b = g.name("m"), g.name("m")
        x = mkstr(["$", g.name("p")])
        return Program([Macro(a, [x], [g.op(vp("pa", 3, 4), vc(x)), MacroCall(b)]), Macro(b, [], [g.op(vp("pb", 7, 0), vp("pc", 0, 1))]), Macro(g.name("m"), [], [g.op(vp("unused", 7, 0))]),
                        rt(0, [g.op(vp("p0", 1, 1)), MacroCall(a, [vp("p1", 2, 2)]), g.op(vi(1), vp("p2", 5, 5))])])

    yield "pos:macros", p1

    def p2(g):
        b = g.name("m")
        return Program([Macro(b, [], [g.op(vp("pb", 7, 0))]), rt(0, [MacroCall(b), MacroCall(b), g.op(vp("p", 2, 3))]), rt(1, [MacroCall(b)])])

    yield "pos:twice", p2

    def p3(g):
        return Program([rt(0, [If([(False, [g.cond()], [g.op(vp("a", 1, 2))])], [with_block("actor", g.c(), g.op(vp("b", 3, 4)))]),
                               Switch(h_oper(g.name("o"), vp("h", 5, 6)), [(g.case(), [g.op(vp("c", 1, 1), vp("d", 8, 8)), Break()])]),
                               If([(False, [c_oper("BranchSum", vp("e", 1, 3))], [g.op()])]),
                               Forever([g.op(vp("f", 1, 2)), BreakLoop()])])])

    yield "pos:blocks", p3


def programs(tier):
    """(name, builder(g) -> Program | Project)"""
    for n in (1, 2, 3, 4):
        for i, out in enumerate(dags(n)):
            yield f"dag{n}:{i}", lambda g, n=n, out=out: dag_program(n, out, g)
            if n <= 3:
                for st in (1, 2):
                    yield f"dag{n}:{i}:{st}", lambda g, n=n, out=out, st=st: dag_program(n, out, g, st == 1, st)
    if tier == "thorough":
        for i, out in enumerate(dags(5)):
            if i % 7 == 0:
                yield f"dag5:{i}", lambda g, out=out: dag_program(5, out, g)
    for k, (nm, b) in enumerate(forms.stmts(G())):
        yield f"param:{nm}", lambda g, b=b, k=k: param_program(b, g, k)
    for k, (nm, b) in enumerate(forms.ends()):
        if tier == "thorough" or k % 3 == 0:
            yield f"ends:{nm}", lambda g, b=b: ends_program(b, g)
    yield from arg_programs()
    yield from body_programs()
    yield from return_programs()
    yield from label_programs()
    yield from imp_programs()
    yield from posmark_programs()
    yield from bigfam.macros(tier)
