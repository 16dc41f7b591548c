"""C03: compiled output is a closed, uniquely addressed op list."""
from __future__ import annotations

from .common import *
from sa import bigfam, forms, macrofam, ssbs
from sa.engine import Obj
from sa.project import as_project

SSBC = "explorerscript.ssb_script.ssb_converting.ssb_compiler"


def closed(name, ops, infos, named, rts, text, names=()):
    v = []

    def bad(rule, m, msg):
        v.append(vio(rule, site(m) if m is not None else "tables", f"[{name}] {msg}", text))

    if not (len(ops) == len(infos) == len(named) == len(rts)):
        bad("tables", None, f"{len(rts)} routines; op table {len(ops)}, infos {len(infos)}, coroutine names {len(named)}")
        return v
    for row in ops:
        for o in row:
            if not isinstance(o, Obj) or o.cls.name != "SsbOperation":
                v.append(vio("pseudo op", f"{o.cls.name}", f"[{name}] {o.cls.name} remains in the result", text))
    if v:
        return v
    c = Code(ops)
    for m in c.dups:
        bad("unique offset", m, f"offset {m.off} is used twice: {c.routines}")
    for row in c.routines:
        for m in row:
            if not isinstance(m.off, int) or isinstance(m.off, bool):
                bad("offset", m, f"{m} has no integer offset")
            if isinstance(m.name, str) and m.name in JUMPS:
                try:
                    c.target(m)
                except Bad as e:
                    bad(e.rule, m, e.msg + f"; ops {c.routines}")
            if isinstance(m.name, str) and "label" in m.name.lower() and m.name not in names:
                bad("pseudo op", m, f"{m} remains")
    for i, r in enumerate(rts):
        k, _l, _n = info_norm(infos[i])
        if k != r.kind:
            bad("table index", None, f"routine {i} is {r.kind}, its info entry says {k}")
        if r.kind == "COROUTINE" and not same(named[i], r.name):
            bad("table index", None, f"coroutine {r.name} has the name entry {named[i]!r}")
        if r.alias and ops[i]:
            bad("table index", None, f"alias routine {i} has ops")
        if not r.alias and r.body is not None and not ops[i] and any(isinstance(s, Simple) for s in r.body):
            bad("table index", None, f"routine {i} has no ops")
    return v


RULE = "Every compilation result is closed: unique integer offsets, jump ops end in the offset of an op present, no pseudo ops, tables of equal length."


def items(tier):
    out = []
    for it in control_items(tier, 90 if tier == "quick" else 3):
        out.append(("control", it[0], it))
    for n, b in forms.programs():
        out.append(("form", n, b))
    for n, b in bigfam.programs(tier):
        out.append(("form", n, b))
    for n, rs in bigfam.rsets(tier):
        out.append(("ssbs", n, lambda g, rs=rs: bigfam.spelled(rs)))
    for n, b in macrofam.programs(tier):
        if n.startswith("dag4") and h32(n) % 6:
            continue
        out.append(("macro", n, b))
    for n, b in ssbs.rsets(tier):
        if n.startswith(("empty", "all empty")):  # a routine without operations has no SsbScript spelling of its own
            continue
        out.append(("ssbs", n, b))
        if not n.startswith("graph") or tier != "quick" or h32(n) % 5 == 0:
            out.append(("ssbs", "each:" + n, b))
    return out


def work(P, it):
    kind, name, b = it
    if kind == "ssbs":
        rs = b(fam.G(True))
        src, _p, _e = render(rs.toks("@", name.startswith("each:")), h32(name) % 3)
        I = P.I

        def go():
            c = I.call(P.mod(SSBC).ns["SsbScriptSsbCompiler"], [], {})
            I.call_method(c, "compile", [src])
            return c

        c = P.one(go)
        if not isinstance(c, Obj):
            return ("vio", [vio("accept", fail_site(c), f"[{name}] valid SsbScript is not compiled: {fail_text(c)}", rep_text(src))])
        v = closed(name, c.d["routine_ops"], c.d["routine_infos"], c.d["named_coroutines"], [h for h, _ in rs.routines], rep_text(src), {o.name for _h, ops in rs.routines for o in ops if isinstance(o.name, str)})
        # the targets are those that the labels say
        if not v:
            code = Code(c.d["routine_ops"])
            for i, (_h, ops) in enumerate(rs.routines):
                for o, m in zip(ops, code.routines[i]):
                    if o.target is not None and code.target(m) is not code.routines[o.target[0]][o.target[1]]:
                        v.append(vio("label", site(m), f"[{name}] {m} does not go to the op behind its label; ops {code.routines}", rep_text(src)))
        return ("vio", v) if v else ("ok", None)
    pr = as_project(build_control(b) if kind == "control" else b(fam.G(True)))
    r = pr.compile(P)
    if not r.ok:
        raise Undecided("program not compiled (C01/C05): " + str(r.text)[:80])
    v = closed(name, r.ops, r.infos, r.named, pr.main.routines, pr.text())
    return ("vio", v) if v else ("ok", None)


def main(tier):
    t0 = time.time()
    its = items(tier)
    res, skipped, lines = run_parallel(its, work, 300 if tier == "quick" else 780, Pipe)
    n, vios = summarise(res, skipped)
    return finish("C03", tier, "other", vios, cover(RULE, n, lines, samples=samples(its, res)), t0)
