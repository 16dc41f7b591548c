"""C16: layout, comments and alternative spellings do not change the compiled ops."""
from __future__ import annotations

from .common import *
from sa.decfam import MARK
from sa.model import ssbs_compile
from sa.machine import Obj
from sa import forms, macrofam, spell, ssbs
from sa.project import as_project

RULE = ("Every schema compiles to the same abstract ops, routine tables and position marks in every layout (all kinds of blanks, comments and line joinings at every token boundary) "
        "and in every alternative spelling of its labels, routine headers, argument lists, integers, decimals and strings.")


def result(P, r):
    """Everything that has to stay the same, in normal form."""
    s = SM(P, r.sm)
    mk = lambda o: tuple(o.d[k] for k in ("name", "x_offset", "y_offset", "x_relative", "y_relative"))
    return {
        "ops": tuple(tuple((o.d["offset"], o.d["op_code"].d["name"]) + tuple(norm_param(p) for p in o.d["params"]) for o in row) for row in r.ops),
        "routine table": tuple(info_norm(i) for i in r.infos),
        "coroutines": tuple(r.named),
        "position marks": tuple(mk(o) for o in s.marks) + tuple((f, n, mk(o)) for f, n, o in s.macro_marks),
    }


def numbers():
    """schemata where every INTEGER / DECIMAL of the grammar stands, with boundary values"""
    vals = [0, 1, 2, 5, 7, 8, 9, 10, 15, 16, 31, 64, 100, 127, 255, 256, 4095, 32767, 65535, 2**31]
    for a in vals:
        for s in (1, -1):
            if a or s > 0:
                yield f"num:{a * s}", lambda g, n=a * s: Program([rt(0, [g.op(vi(n)), assign(g.var(), "=", vi(n)), assign_bit(g.var(), n, vi(n)), set_scn(g.var(), n, n),
                                                             If([(False, [c_op(vi(n), "<", vi(n)), c_bit(g.var(), n), c_scn(g.var(), "==", n, n)], [g.op(vp("m", 2 * abs(n), 2 * n) if n >= 0 else vi(1))])]),
                                                             Switch(h_random(vi(n)), [(k_val(vi(n)), [g.op()]), (k_op(">", vi(n)), [Break()]), (k_menu2(vi(n)), [g.op()])]),
                                                             message_switch("message_SwitchTalk", vi(n), [(vi(n), vs("t"))])]),
                                                     rt_for(1, "actor", vi(n), [g.op()])])
    for w in ("", "1", "9", "10", "100", "1000", "-", "-1", "-10", "-100"):
        for f in ("0", "5", "50", "500", "25", "05", "125", "00", "10", "001"):
            yield f"dec:{w}.{f}", lambda g, t=f"{w}.{f}": Program([rt(0, [g.op(vfx(t), vfx(t)), assign(g.var(), "=", vfx(t)), If([(False, [c_op(g.var(), "<", vfx(t))], [g.op()])]), Switch(h_var(vfx(t)), [(k_val(vfx(t)), [g.op()])])])])
    for w in ("", "1", "9", "10", "100", "-", "-1", "-10"):
        for f in ("0", "5", "50", "500", "00"):
            def b(g, t=f"{w}.{f}"):
                return Program([rt(0, [Simple(lambda: T("place", "(", "Position", "<", '"m"', ",", t, ",", t, ">", ")"), [], "op")])])

            yield f"posdec:{w}.{f}", b
    for s in ("", "a", "it's", 'say "x"', "both ' and \"", "é §", "a // b", "/* c */", "tab\there", "  blanks  ", "~$@{}<>"):
        yield f"str:{s}", lambda g, s=s: Program([rt(0, [g.op(vs(s) if '"' not in s else vs(s, "'")) if not ("'" in s and '"' in s) else g.op(),
                                                   g.op(vl([("english", s), ("french", s)])) if '"' not in s else g.op(),
                                                   message_switch("message_SwitchMonologue", g.var(), [(vi(1), vs(s) if '"' not in s else vs("x"))], vs("d")),
                                                   Switch(h_var(g.var()), [(k_menu(vs(s) if '"' not in s else vs("x")), [g.op()])])])])
    for st in (0, 1, 2):
        for kind in ("actor", "object", "performer"):
            for v in (lambda g: vi(3), lambda g: vi(-2), lambda g: g.c(), lambda g: g.var(), lambda g: vi(0)):
                yield f"target:{kind}{st}", lambda g, st=st, kind=kind, v=v: Program([rt_for(0, kind, v(g), [g.op()], st), rt_for(1, kind, v(g), None, st, alias=True), rt(2, [g.op()])])
    for sg in "@§":
        yield f"label {sg}", lambda g, sg=sg: (lambda a, b: Program([rt(0, [Label(a, sg), g.op(), Switch(h_var(g.var()), [(g.case(), [Label(b, sg), g.op()]), (None, [Jump(a)])]), If([(False, [g.cond()], [Label(g.lab(), sg), Jump(b)])], [Label(g.lab(), sg)])])]))(g.lab(), g.lab())


def core(g):
    """one program with every statement kind"""
    sts = []
    for _n, b in forms.stmts(g):
        if h32(_n) % 9 == 0:
            sts += b(g)
    return sts


def items(tier):
    q = tier == "quick"
    out = []
    for n, b in numbers():
        out.append((n, b, "all"))
    for n, b in forms.programs():
        h = h32(n)
        if not q or n.startswith(("simple", "routines")) or h % 6 == 0:
            out.append((n, b, "all"))
        elif h % 2 == 0:
            out.append((n, b, "lay"))
    for it in control_items(tier, 4000 if q else 60):
        if q and h32(it[0]) % 20:
            continue
        out.append((it[0], ("control", it), "all"))
    for n, b in macrofam.programs(tier):
        if h32(n) % (60 if q else 2) == 0:
            out.append((n, b, "all"))
    for n, b in forms.programs():
        if h32(n) % (110 if q else 5) == 0:
            out.append(("gaps:" + n, b, "gaps"))
    for n, b in ssb_numbers():
        out.append(("ssbs " + n, ("ssbs", b), "all"))
    k = 0
    for n, b in ssbs.rsets(tier):
        if n.startswith(("empty", "all empty")):
            continue
        h = h32(n)
        k += 1
        if n.startswith("graph") and h % (12 if q else 3):
            continue
        out.append(("ssbs " + n, ("ssbs", b), "all" if not q or h % 3 == 0 or n.startswith(("arg", "kinds", "coros", "mixed")) else "lay"))
        if h % (60 if q else 6) == 0:
            out.append(("ssbs gaps:" + n, ("ssbs", b), "gaps"))
    return out


def ssb_numbers():
    """SsbScript: integers in routine headers, targets and arguments, decimals, strings, marks"""
    for a in (0, 1, 7, 8, 9, 10, 15, 16, 31, 64, 255, 256, 4095, 65535):
        for s in (1, -1):
            if a or s > 0:
                n = a * s
                for st, kind in enumerate(("actor", "object", "performer")):
                    yield f"num {n} {kind}", lambda g, n=n, st=st, kind=kind: ssbs.RSet([
                        (rt_for(0, kind, vi(n), [], st), [ssbs.SOp(g.name("o"), [vi(n), vl([("english", "x")]), vi(n)]), ssbs.SOp("Branch", [vi(n)], (0, 0))]),
                        (rt_for(1, kind, vi(n), [], (st + 1) % 3), [ssbs.SOp(g.name("o"), [vp("m", 2 * abs(n), 2 * n)] if n >= 0 else [vi(n), vi(1)])])])
    for w in ("", "1", "10", "-", "-1", "-10"):
        for f in ("0", "5", "50", "25", "05", "001"):
            yield f"dec {w}.{f}", lambda g, t=f"{w}.{f}": ssbs.RSet([(rt(0, []), [ssbs.SOp(g.name("o"), [vfx(t), vi(1), vfx(t)])])])
    for w in ("", "1", "10", "-1"):
        for f in ("0", "5", "50"):
            yield f"posdec {w}.{f}", lambda g, t=f"{w}.{f}": ssbs.RSet([(rt(0, []), [ssbs.SOp(g.name("o"), [Val(["Position", "<", '"m"', ",", t, ",", t, ">"], ("p",))])])])
    for s in ("", "a", "it's", 'say "x"', "a // b", "/* c */", "tab\there", "  blanks  ", "~$@{}<>"):
        yield f"str {s}", lambda g, s=s: ssbs.RSet([(rt(0, []), [ssbs.SOp(g.name("o"), [vs(s) if '"' not in s else vs(s, "'"), vs("y")]), ssbs.SOp(g.name("o"), [vl([("english", s), ("french", s)]) if '"' not in s else vi(1)])])])


def ssb_result(P, c):
    s = SM(P, c.d["source_map"])
    mk = lambda o: tuple(o.d[k] for k in ("name", "x_offset", "y_offset", "x_relative", "y_relative"))
    return {
        "ops": tuple(tuple((o.d["offset"], o.d["op_code"].d["name"]) + tuple(norm_param(p) for p in o.d["params"]) for o in row) for row in c.d["routine_ops"]),
        "routine table": tuple(info_norm(i) for i in c.d["routine_infos"]),
        "coroutines": tuple(c.d["named_coroutines"]),
        "position marks": tuple(mk(o) for o in s.marks),
    }


def work_ssbs(P, it):
    name, (_k, b), mode = it
    toks = b(fam.G(True)).toks()
    lay0 = lambda t: spell.render_gaps(t, lambda i, a, b: " ")
    src0 = lay0(toks)

    def comp(src):
        # half of the programs go through the class for SsbScript itself, the others through the marker in the first line
        if h32(name) % 2:
            return P.one(lambda: ssbs_compile(P, src))
        return P.compile(mkstr([MARK, src]), "/p/main.exps", {}, [])

    def read(r):
        if isinstance(r, Obj):
            return ssb_result(P, r)
        return result(P, r) if getattr(r, "ok", False) is True else None

    r0 = comp(src0)
    base = read(r0)
    vs_ = [(n, l(toks)) for n, l in (spell.every_gap() if mode == "gaps" else spell.layouts(h32(name)))]
    if mode == "all":
        for n, fn in spell.SPELLINGS:
            u = fn(toks)
            if u is not None:
                vs_.append((n, lay0(u)))
    bad = []
    for n, src in vs_:
        r = comp(src)
        got = read(r)
        txt = f"// SsbScript\n{rep_text(src0)}\n// {n}\n{rep_text(src)}"
        if (got is None) != (base is None):
            f = r if got is None else r0
            bad.append(vio("spelling: " + n.split(" ")[0], fail_site(f), f"[{name}] one spelling ({n}) is compiled, the other is not: {fail_text(f)}", txt))
        elif got is not None:
            for k in base:
                if not same(base[k], got[k]):
                    bad.append(vio("spelling: " + n.split(" ")[0], k, f"[{name}] {k} differ for the spelling '{n}': {base[k]} / {got[k]}", txt))
                    break
    return ("vio", bad) if bad else ("ok", len(vs_))


def work(P, it):
    name, b, mode = it
    if isinstance(b, tuple) and b[0] == "ssbs":
        return work_ssbs(P, it)
    pr = as_project(build_control(b[1]) if isinstance(b, tuple) else b(fam.G(True)))
    srcs = [(p, f) for p, f in list(pr.files.items()) + [(pr.path, pr.main)]]
    toks = {p: f.toks() for p, f in srcs}

    def comp(tk, lay):
        src = {p: lay(t) for p, t in tk.items()}
        fs = dict(pr.extra_fs)
        fs.update({p: s for p, s in src.items() if p != pr.path})
        return P.compile(src[pr.path], pr.path, fs, pr.lookup), src

    lay0 = lambda t: spell.render_gaps(t, lambda i, a, b: " ")
    r0, src0 = comp(toks, lay0)
    base = result(P, r0) if r0.ok else None
    vs_ = []
    if mode == "gaps":
        vs_ = [(n, toks, l) for n, l in spell.every_gap()]
    else:
        vs_ = [(n, toks, l) for n, l in spell.layouts(h32(name))]
    if mode == "all":
        for n, fn in spell.SPELLINGS:
            tk = {}
            hit = False
            for p, t in toks.items():
                u = fn(t)
                hit |= u is not None
                tk[p] = t if u is None else u
            if hit:
                vs_.append((n, tk, lay0))
    bad = []
    for n, tk, lay in vs_:
        r, src = comp(tk, lay)
        txt = "\n".join(f"// {p}\n{rep_text(src0[p])}\n// {n}\n{rep_text(src[p])}" for p in src)
        if r.ok != r0.ok:
            f = r0 if r.ok else r
            bad.append(vio("spelling: " + n.split(" ")[0], fail_site(f), f"[{name}] one spelling ({n}) is compiled, the other is not: {fail_text(f)}", txt))
        elif r.ok:
            got = result(P, r)
            for k in base:
                if not same(base[k], got[k]):
                    bad.append(vio("spelling: " + n.split(" ")[0], k, f"[{name}] {k} differ for the spelling '{n}': {base[k]} / {got[k]}", txt))
                    break
    return ("vio", bad) if bad else ("ok", len(vs_))


def main(tier):
    t0 = time.time()
    its = items(tier)
    res, skipped, lines = run_parallel(its, work, 300 if tier == "quick" else 780, Pipe)
    n, vios = summarise(res, skipped)
    n["spellings_compared"] = sum(t[2] for t in res if t[1] == "ok")
    return finish("C16", tier, "other", vios, cover(RULE, n, lines, samples=samples(its, res)), t0)
