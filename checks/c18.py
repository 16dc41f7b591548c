"""C18: the position-mark listing delimits every Position literal exactly."""
from __future__ import annotations

from .common import *
from sa import forms, macrofam, spell
from sa.values import AStr, Atom
from sa.spec import _wordy
from sa.pipe import DATA, Result

RULE = ("For every schema with Position literals the abstract listing has one entry per literal token sequence, in order, delimited by its first and last token, with the values of the compiled "
        "parameter; splicing the printed form of an edited mark into the delimited span changes that parameter in the abstract compilation result and nothing else.")


class Mk:
    """One Position literal written in a certain way; key -> where it stands"""

    def __init__(self, g, x="3", y="4.5", q='"', raw=None):
        self.key = object()
        self.name = g.name("m") if raw is None else None
        self.raw = raw
        self.x, self.y, self.q = x, y, q

    def toks(self):
        s = mkstr([self.q, self.name, self.q]) if self.raw is None else self.raw
        a = Tok("Position", [self.key])
        b = Tok(">", (), [self.key])
        return [a] + T("<", s, ",", self.x, ",", self.y) + [b]

    norm = ("?",)


SHAPES = [("3", "4.5"), ("0", "0"), ("10.5", "7"), ("0x1f", "0b11"), ("1.50", "2.0"), ("-3", "-4.5"), ("00", ".5"), ("65", "127.500")]


def mop(g, marks, ctx=None):
    """operations with marks among the arguments"""
    return op(g.name("o"), *marks, ctx=ctx)


def mhead(g, marks):
    return c_oper("BranchExecuteSub", *marks)


CONT = {
    "top": lambda g, s: s,
    "if": lambda g, s: [If([(False, [g.cond()], s)])],
    "ifnot": lambda g, s: [If([(True, [g.cond()], s)], [g.op()])],
    "elseif": lambda g, s: [If([(False, [g.cond()], [g.op()]), (False, [g.cond()], s)], [g.op()])],
    "else": lambda g, s: [If([(False, [g.cond()], [g.op()])], s)],
    "case": lambda g, s: [Switch(h_var(g.var()), [(g.case(), s), (None, [g.op()])])],
    "default": lambda g, s: [Switch(h_var(g.var()), [(g.case(), [g.op()]), (None, s)])],
    "default first": lambda g, s: [Switch(h_var(g.var()), [(None, s), (g.case(), [g.op()])])],
    "forever": lambda g, s: [Forever(s)],
    "while": lambda g, s: [While(False, g.cond(), s)],
    "whilenot": lambda g, s: [While(True, g.cond(), s)],
    "for": lambda g, s: [For(g.op(), g.cond(), g.op(), s)],
}


def leafs(g):
    """(name, statements with marks, marks in order of the text)"""
    m = lambda i=0, **k: Mk(g, *SHAPES[i % len(SHAPES)], **k)

    def one(fn, n):
        ms = [m(i, q="'\""[i % 2]) for i in range(n)]
        return fn(ms), ms

    yield ("op1",) + one(lambda ms: [mop(g, ms)], 1)
    yield ("op3",) + one(lambda ms: [mop(g, [vi(1), ms[0], ms[1], vs("Position<'x', 1, 2>"), ms[2]])], 3)
    yield ("op2 lines",) + one(lambda ms: [op(g.name("o"), Val(['"""\n  a\nb"""'], ("s", "")), ms[0], vl([("english", "Position<")]), ms[1])], 2)
    yield ("two ops",) + one(lambda ms: [mop(g, [ms[0]]), g.op(), mop(g, [ms[1]])], 2)
    for kind in ("actor", "object", "performer"):
        yield ("inline " + kind,) + one(lambda ms: [mop(g, ms, ctx=(kind, g.c()))], 2)
        yield ("with " + kind,) + one(lambda ms: [with_block(kind, g.c(), mop(g, ms))], 2)
    yield ("if header",) + one(lambda ms: [If([(False, [mhead(g, [ms[0]]), g.cond(), mhead(g, [ms[1]])], [mop(g, [ms[2]])]), (True, [mhead(g, [ms[3]])], [g.op()])], [mop(g, [ms[4]])])], 5)
    yield ("while header",) + one(lambda ms: [While(False, mhead(g, [ms[0]]), [mop(g, [ms[1]])])], 2)
    yield ("for header",) + one(lambda ms: [For(mop(g, [ms[0]]), mhead(g, [ms[1]]), mop(g, [ms[2]]), [mop(g, [ms[3]])])], 4)
    yield ("switch header",) + one(lambda ms: [Switch(h_oper(g.name("o"), *ms[:2]), [(g.case(), [mop(g, [ms[2]]), Break()]), (None, [mop(g, [ms[3]])])])], 4)
    yield ("equal",) + (lambda a, b: ([mop(g, [a, b])], [a, b]))(Mk(g, raw='"same"'), Mk(g, raw='"same"'))
    yield ("equal ops",) + (lambda a, b: ([mop(g, [a]), mop(g, [b])], [a, b]))(Mk(g, raw="''"), Mk(g, raw='""'))
    for i, raw in enumerate(["'it\\'s'", '"say \\"x\\""', "'\\\"'", '"\'"', "'Position<\"a\", 1, 2>'", '"a > b"', "'é §'", '"// no comment"', "'/*'", "'tab\there'", '" blank "']):
        yield (f"name {raw}",) + (lambda a: ([mop(g, [vi(1), a, vi(2)])], [a]))(Mk(g, raw=raw))
    for sh in SHAPES:
        yield (f"coords {sh}",) + (lambda a: ([mop(g, [a])], [a]))(Mk(g, *sh))
    yield "none", [g.op(vs("Position<'x', 1, 2>")), g.op(vc("Position2"))], []


def programs(tier):
    names = [l[0] for l in leafs(fam.G(True))]
    for ln in range(len(names)):
        conts = [(c,) for c in CONT]
        if names[ln] in ("op1", "op3", "if header", "switch header", "for header", "op2 lines") or tier == "thorough":
            conts += [(a, b) for a in CONT for b in CONT if a != "top" and b != "top"]
        if tier == "thorough" and names[ln] in ("op3", "if header", "switch header"):
            conts += [(a, b, c) for a in CONT for b in CONT for c in CONT if "top" not in (a, b, c)]
        for cs in conts:
            yield f"{names[ln]} in {'/'.join(cs)}", ("nest", ln, cs)
    for k in MULTI:
        yield k, ("multi", k, None)
    for t in _count_specs(tier):
        nm = f"counts {t}"
        yield ("not called macro " if "macro" in nm else "") + nm[:120], ("counts", t, None)


def build(spec, g):
    kind, a, cs = spec
    if kind == "multi":
        return MULTI[a](g)
    if kind == "counts":
        return _counts(g, a)
    nm, sts, ms = list(leafs(g))[a]
    for c in reversed(cs):
        sts = CONT[c](g, sts)
    return Program([rt(0, [g.op()] + sts + [g.op(), kw("end")])]), ms


def _macro_args(g):
    ms = [Mk(g, *SHAPES[i]) for i in range(4)]
    a, b = "$" + "pa", "$" + "pb"
    mac = Macro("mac", [a, b], [op(g.name("o"), vc(a), vc(b)), op(g.name("o"), vc(b))])
    return Program([rt(0, [MacroCall("mac", [ms[0], ms[1]]), g.op(), MacroCall("mac", [vi(1), ms[2]]), mop(g, [ms[3]]), kw("end")]), mac]), ms


def _macro_body(g):
    ms = [Mk(g, *SHAPES[i]) for i in range(5)]
    inner = Macro("inner", ["$pa"], [mop(g, [ms[0], vc("$pa")]), If([(False, [g.cond()], [mop(g, [ms[1]])])])])
    outer = Macro("outer", [], [MacroCall("inner", [ms[2]]), mop(g, [ms[3]])])
    return Program([inner, outer, rt(0, [MacroCall("outer", []), MacroCall("outer", []), mop(g, [ms[4]]), kw("end")])]), ms


def _uncalled(g):
    ms = [Mk(g, *SHAPES[i]) for i in range(3)]
    return Program([Macro("m1", [], [mop(g, [ms[0]])]), Macro("m2", ["$p"], [mop(g, [ms[1], vc("$p")])]), rt(0, [mop(g, [ms[2]]), kw("end")])]), ms


def _routines(g):
    ms = [Mk(g, *SHAPES[i]) for i in range(5)]
    return Program([rt(0, [mop(g, [ms[0]]), kw("end")]), rt_for(1, "actor", g.c(), [mop(g, [ms[1]])]), rt(2, None, alias=True), rt_for(3, "object", vi(3), [mop(g, [ms[2]])], 2), rt(4, [mop(g, [ms[3], ms[4]])])]), ms


def _coros(g):
    ms = [Mk(g, *SHAPES[i]) for i in range(2)]
    return Program([coro(g.name("N"), [mop(g, [ms[0]]), kw("return")]), coro(g.name("N"), [mop(g, [ms[1]])])]), ms


def _dead(g):
    ms = [Mk(g, *SHAPES[i]) for i in range(3)]
    a = g.lab()
    return Program([rt(0, [Jump(a), mop(g, [ms[0]]), Label(a), mop(g, [ms[1]]), kw("end"), mop(g, [ms[2]])])]), ms


def _macro_between(g):
    ms = [Mk(g, *SHAPES[i]) for i in range(3)]
    return Program([rt(0, [mop(g, [ms[0]]), kw("end")]), Macro("late", [], [mop(g, [ms[1]])]), rt(1, [mop(g, [ms[2]]), MacroCall("late", []), kw("end")])]), ms


def _counts(g, levels):
    """Literals spread unevenly: levels is a nested tuple, a number is a statement with that many literals"""
    ms = []

    def stmt(x):
        if isinstance(x, int):
            new = [Mk(g, *SHAPES[(len(ms) + k) % len(SHAPES)]) for k in range(x)]
            ms.extend(new)
            return mop(g, new) if x else g.op()
        k = x[0]
        if k == "if":
            a = stmts(x[1])
            b = stmts(x[2])
            c = stmts(x[3])
            return If([(False, [g.cond()], a), (True, [g.cond()], b)], c)
        if k == "sw":
            a = stmts(x[1])
            b = stmts(x[2])
            return Switch(h_var(g.var()), [(g.case(), a), (None, b)])
        if k == "for":
            a, b, c = stmt(x[1]), stmt(x[2]), stmts(x[3])
            return For(a, g.cond(), b, c)
        if k == "ctx":
            return with_block("actor", g.c(), stmt(x[1]))
        return Forever(stmts(x[1]))

    def stmts(xs):
        return [stmt(x) for x in xs]

    out = []
    for i, r in enumerate(levels):
        if r and r[0] == "macro":
            out.append(Macro(f"m{i}", [], stmts(r[1:])))
        else:
            out.append(rt(sum(1 for x in out if not isinstance(x, Macro)), stmts(r) + [kw("end")]))
    return Program(out), ms


def _count_specs(tier):
    R = (0, 1, 2, 4)
    for t in itertools.product(R, repeat=3):
        yield (t,)
        yield tuple((x,) for x in t)
        yield ((("if", (t[0],), (t[1],), (t[2],)),),)
        yield ((t[0], ("sw", (t[1],), (t[2],))),)
    for t in itertools.product((0, 1, 3), repeat=4):
        yield ((("for", t[0], t[1], (t[2], t[3])),),)
        yield (t[:2], ("macro",) + t[2:])
        if tier == "thorough":
            yield (("macro",) + t[:1], t[1:3], (("loop", t[3:]),))
            yield (((t[0]), ("loop", (t[1], ("if", (t[2],), (0,), (t[3],))))),)
    for n in (7, 11, 40):
        yield ((1, n, 2),)
        yield tuple((1 + i % 2,) for i in range(n))
        yield ((1,) * n,)
        yield ((1, ("ctx", n), ("loop", (1,) * n), 1),)
    if tier == "thorough":
        yield ((130, 1, 130),)
        yield ((1,) * 300,)


MULTI = {"macro arguments": _macro_args, "macro bodies": _macro_body, "macros not called": _uncalled, "routines": _routines, "coroutines": _coros, "unreachable": _dead, "macro between routines": _macro_between, "no routines": lambda g: (Program([]), []), "empty alias": lambda g: (Program([rt(0, None, alias=True)]), [])}


def render_keys(toks, gap, start="", end="\n"):
    """like spell.render_gaps, also where every key begins (line, col, offset) and ends"""
    parts, pos, stop = [], {}, {}
    line = col = off = 0

    def put(s):
        nonlocal line, col, off
        parts.append(s)
        r = rep_text(s)
        n = r.count("\n")
        if n:
            line += n
            col = len(r) - r.rfind("\n") - 1
        else:
            col += len(r)
        off += len(r)

    put(start)
    prev = None
    for i, tk in enumerate(toks):
        r = rep_text(tk.t)
        if prev is not None:
            gp = gap(i, prev, r)
            put(gp if gp or spell.glue_ok(prev, r) else " ")
        for k in tk.keys:
            pos[k] = (line, col, len(parts))
        for k in tk.endkeys:
            stop[k] = (line, col, len(parts))
        put(tk.t)
        prev = r
    put(end)
    return parts, pos, stop


FIELDS = ("name", "x_offset", "y_offset", "x_relative", "y_relative")


def vals(o):
    return tuple(o.d[k] for k in FIELDS)


def params_of(r):
    """every parameter of the result in order, marks as field tuples"""
    out = []
    for row in r.ops:
        out.append("routine")
        for o in row:
            out.append(("op", o.d["offset"], o.d["op_code"].d["name"], len(o.d["params"])))
            for p in o.d["params"]:
                out.append(norm_param(p))
    return out


def check(P, name, prog, ms, lay, edit):
    I = P.I
    parts, pos, stop = render_keys(prog.toks(), *lay)
    src = mkstr(parts)
    text = rep_text(src)
    rd = P.mod("explorerscript.explorerscript_reader").ns["ExplorerScriptReader"]
    pv = P.mod("explorerscript.ssb_converting.compiler.compiler_visitor.position_mark_visitor").ns["PositionMarkVisitor"]

    def listing():
        tree = I.call_method(I.call(rd, [src], {}), "read", [])
        return list(I.iterate(I.call_method(I.call(pv, [], {}), "visit", [tree])))

    L = P.one(listing)
    if isinstance(L, Result):
        return [vio("listing", fail_site(L), f"[{name}] no listing for a program that parses: {fail_text(L)}", text)]
    v = []
    want = [(pos[m.key][:2], stop[m.key][:2]) for m in ms]
    got = [((o.d["line_number"], o.d["column_number"]), (o.d["end_line_number"], o.d["end_column_number"])) for o in L]
    if len(got) != len(want):
        return [vio("entries", "PositionMarkVisitor", f"[{name}] {len(got)} entries for {len(want)} Position literals: {got}", text)]
    if got != want:
        k = next(i for i in range(len(got)) if got[i] != want[i])
        rule = "order" if sorted(got) == sorted(want) else "start" if got[k][0] != want[k][0] else "end"
        return [vio(rule, "PositionMarkVisitor", f"[{name}] literal {k} spans {want[k]}, listed as {got[k]}", text)]
    r = P.compile(src)
    if not r.ok:
        raise Undecided("program not compiled (C01/C05): " + str(r.text)[:80])
    comp = []
    for row in r.ops:
        for o in row:
            for p in o.d["params"]:
                n = norm_param(p)
                if n[0] == "p":
                    comp.append((n[1], n[4], n[5], n[2], n[3]))
    lst = [vals(o) for o in L]
    if not any("macro" in d for d in [name]):
        sk = lambda l: tuple(sorted(l, key=repr))
        if not same(sk(comp), sk(lst)):
            v.append(vio("values", "PositionMarkVisitor", f"[{name}] the compiler's parameters are {comp}, the listing has {lst}", text))
    else:
        for x in lst:
            if not any(same(x, y) for y in comp) and "not called" not in name:
                v.append(vio("values", "PositionMarkVisitor", f"[{name}] the compiler's parameters are {comp}, the listing has {x}", text))
        for y in comp:
            if not any(same(x, y) for x in lst):
                v.append(vio("values", "PositionMarkVisitor", f"[{name}] the compiler's parameter {y} is not in the listing {lst}", text))
    if v or not edit:
        return v
    # replace a span by the printed form of an edited mark
    cls = P.mod(DATA).ns["SsbOpParamPositionMarker"]
    before = params_of(r)
    for k, m in enumerate(ms):
        new = (f"new{k}", (0, 2)[k % 2], (2, 0)[k % 2], 20 + k, 31)
        pr = P.one(lambda: I.str(I.call(cls, [], dict(zip(FIELDS, new)))))
        if isinstance(pr, Result):
            return [vio("edit", fail_site(pr), f"[{name}] the edited mark is not printed: {fail_text(pr)}", text)]
        a, b = pos[m.key][2], stop[m.key][2]
        r2 = P.compile(mkstr(parts[:a] + [pr] + parts[b + 1 :]))
        if not r2.ok:
            v.append(vio("edit", fail_site(r2), f"[{name}] with literal {k} replaced by {pr!r}: {fail_text(r2)}", text))
            continue
        after = params_of(r2)
        old = lst[k]
        oldn, newn = ("p", old[0], old[3], old[4], old[1], old[2]), ("p", new[0], new[3], new[4], new[1], new[2])
        if len(after) != len(before):
            v.append(vio("edit", "ops", f"[{name}] with literal {k} replaced by {pr!r} the ops differ: {before} / {after}", text))
            continue
        diff = [(x, y) for x, y in zip(before, after) if not same(x, y)]
        if any(not (same(x, oldn) and same(y, newn)) for x, y in diff) or (not diff and "not called" not in name and any(same(x, oldn) for x in before)):
            v.append(vio("edit", "parameter", f"[{name}] literal {k} replaced by {pr!r} changes {diff}", text))
    return v


def items(tier):
    out = []
    for i, (n, s) in enumerate(programs(tier)):
        out.append((n, s, i))
    return out


def work(P, it):
    name, spec, i = it
    bad = []
    n = len(spell.GAPS)
    lays = [(lambda i, a, b: " ",), (lambda i, a, b: "\n",), (lambda k, a, b: spell.GAPS[(k * 5 + i) % n], spell.STARTS[i % len(spell.STARTS)], spell.ENDS[i % len(spell.ENDS)]), (lambda i, a, b: "", "", ""), (lambda k, a, b: "\r\n  " if k % 3 == 0 else " é /* é */ "[k % 2 * 2:] if k % 2 else "\t",)]
    lays[4] = (lambda k, a, b: ["\r\n  ", "\t", " /* é€ */ "][k % 3],)
    if spec[0] == "counts":
        lays = lays[:1] + lays[3:4] if i % 2 else lays[2:3] + lays[4:]
    for li, lay in enumerate(lays):
        prog, ms = build(spec, fam.G(True))
        bad += check(P, f"{name}, layout {li}", prog, ms, lay, li in (0, 2) and spec[0] != "counts")
        if len(bad) > 3:
            break
    return ("vio", bad) if bad else ("ok", len(lays))


def main(tier):
    t0 = time.time()
    its = items(tier)
    res, skipped, lines = run_parallel(its, work, 300 if tier == "quick" else 780, Pipe)
    n, vios = summarise(res, skipped)
    return finish("C18", tier, "other", vios, cover(RULE, n, lines, samples=samples(its, res)), t0)
