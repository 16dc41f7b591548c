"""C01: compiled bytecode behaves exactly as the source program says."""
from __future__ import annotations

from .common import *
from sa import bigfam, forms


def judge(name, ref, rts, r, text):
    """Compare one compilation result with the denotation of its source."""
    if not r.ok:
        return ("vio", [vio("accept", fail_site(r), f"[{name}] a valid program is not compiled: {fail_text(r)}", text)])
    c = code_of(r)
    v = []
    if len(c.routines) != len(rts):
        v.append(vio("tables", "routine count", f"[{name}] {len(c.routines)} routines instead of {len(rts)}", text))
        return ("vio", v)
    for i, (entry, rtn) in enumerate(zip(ref.entry, rts)):
        if entry == "alias":
            if c.routines[i]:
                v.append(vio("alias", "alias routine has ops", f"[{name}] {c.routines[i]}", text))
            continue
        try:
            walk(entry, c, c.routines[i][0] if c.routines[i] else None, fall_ok=True)
        except Bad as e:
            v.append(vio(e.rule, site(e.op), f"[{name}] routine {i}: {e.msg}; ops {c.routines}", text))
    for i, rtn in enumerate(rts):
        k, l, ln = info_norm(r.infos[i])
        want = (rtn.kind, rtn.linked)
        got = (k, ("c", ln) if ln is not None else ("i", l))
        if not same(got, want):
            v.append(vio("routine info", "SsbRoutineInfo", f"[{name}] routine {i}: {got} instead of {want}", text))
        if rtn.kind == "COROUTINE" and not same(r.named[i], rtn.name):
            v.append(vio("coroutine name", "named_coroutines", f"[{name}] {r.named}", text))
    return ("vio", v) if v else ("ok", None)


def check_program(P, prog, name, layout=0):
    src, pos, end = render(prog.toks(), layout)
    r = P.compile(src)
    return judge(name, Ref(prog), prog.routines, r, rep_text(src))


RULE = "Every compiled routine, walked as a transition system from its entry, has exactly the operation/test paths of the denotation of its source schema."


def items(tier):
    out = [("control",) + it for it in control_items(tier, 45 if tier == "quick" else 1)]
    out += [("form",) + it for it in forms.programs()]
    out += [("form",) + it for it in forms.end_programs()]
    out += [("form",) + it for it in bigfam.programs(tier)]
    return out


def work(P, it):
    if it[0] == "control":
        prog = build_control(it[1:])
        return check_program(P, prog, it[1])
    return check_program(P, it[2](fam.G(True)), it[1])


def main(tier):
    t0 = time.time()
    its = items(tier)
    res, skipped, lines = run_parallel(its, work, 200 if tier == "quick" else 780, Pipe)
    n, vios = summarise(res, skipped)
    cov = cover(RULE, n, lines, samples=samples(its, res))
    return finish("C01", tier, "other", vios, cov, t0)
