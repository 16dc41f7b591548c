"""C08: compile-time source map."""
from __future__ import annotations

import posixpath

from .common import *
from sa import forms, macrofam
from sa.project import as_project
from sa.machine import settle_ref
from sa.values import AStr, SInt


COMPOUND = (If, Switch, Forever, While, For)


def keys_of(stmts, out):
    """Keys of all constructs a block-made jump may be attributed to."""
    for s in stmts:
        if isinstance(s, If):
            out.append(s)
            for i, (_n, cs, b) in enumerate(s.arms):
                out += cs
                out.append((s, i))
                keys_of(b, out)
            if s.els is not None:
                out.append((s, "else"))
                keys_of(s.els, out)
        elif isinstance(s, Switch):
            out.append(s)
            out.append(s.hdr)
            for i, (h, b) in enumerate(s.cases):
                if h is not None:
                    out.append(h)
                out.append((s, i))
                keys_of(b, out)
        elif isinstance(s, (Forever, While, For)):
            out.append(s)
            if not isinstance(s, Forever):
                out.append(s.cond)
            keys_of(s.body, out)
        else:
            out.append(s)
            if isinstance(s, WithCtl):
                out.append(s.inner)
            if isinstance(s, Block) and getattr(s, "subkeys", None):
                out += [k for k in s.subkeys if k is not None]
    return out


def entry_of(sm, off):
    return sm.direct.get(off), sm.macros.get(off)


def lc(e):
    return (e.d["line"], e.d["column"])


def mark_of(o):
    d = o.d
    return (d["name"], d["x_relative"], d["y_relative"], d["x_offset"], d["y_offset"])


def marks_in(ops):
    out = []
    for row in ops:
        for o in row:
            for p in o.d["params"]:
                n = norm_param(p)
                if n[0] == "p":
                    out.append(n[1:])
    return out


def check(P, name, pr, layout, strict_jumps):
    r = pr.compile(P, layout)
    text = pr.text()
    if not r.ok:
        raise Undecided("program not compiled (C01/C05): " + str(r.text)[:80])
    r.smx = SM(P, r.sm)
    c = code_of(r)
    ref = pr.ref()
    v = []
    pos = pr.pos

    def bad(rule, op, msg, at=None):
        v.append(vio(rule, at or (site(op) if op is not None else "source map"), f"[{name}, layout {layout}] {msg}; ops {c.routines}; map {r.sm_text()}", text))

    def smtext():
        d, m = r.smx.direct, r.smx.macros
        return str({k: lc(e) for k, e in d.items()}) + str({k: [e.d[x] for x in ("relpath_included_file", "macro_name", "line", "column", "called_in", "return_addr")] for k, e in m.items()})

    r.sm_text = smtext
    pairs, jumps = [], []
    for i, entry in enumerate(ref.entry):
        if entry == "alias":
            continue
        try:
            walk(entry, c, c.routines[i][0] if c.routines[i] else None, fall_ok=True, pairs=pairs, jumps=jumps)
        except Bad as e:
            raise Undecided("behaviour differs (C01/C05)")
    # every op is mapped
    allops = [m for row in c.routines for m in row]
    for m in allops:
        d, mm = entry_of(r.smx, m.off)
        if d is None and mm is None:
            bad("unmapped", m, f"{m} has no source map entry")
        elif d is not None and mm is not None:
            bad("doubly mapped", m, f"{m} has a direct entry and a macro entry")
    if v:
        return ("vio", v)
    made = {m.off for n, m in pairs if n.key is not None}
    # expansions: key -> ops
    exp_ops = {}
    for n, m in pairs:
        for x in n.exp:
            exp_ops.setdefault(x[2], {})[m.off] = m
    for n, m in pairs:
        d, mm = entry_of(r.smx, m.off)
        if n.key is None:
            continue  # the added end of a routine
        if not n.exp:
            if d is None:
                bad("direct op mapped as macro op", m, f"{m} is written directly in the file")
            elif lc(d) != pos[n.key]:
                bad("position", m, f"{m} is mapped to {lc(d)}, it is written at {pos[n.key]}")
            continue
        if mm is None:
            bad("macro op mapped as direct op", m, f"{m} comes from macro {n.exp[-1][0].name}")
            continue
        mac, call, eid = n.exp[-1]
        e = mm.d
        if e["relpath_included_file"] != pr.file_of[id(mac)]:
            bad("file", m, f"{m} names the file {e['relpath_included_file']!r}, its macro is defined in {pr.file_of[id(mac)]!r}")
        if not same(e["macro_name"], mac.name):
            bad("macro name", m, f"{m} names the macro {e['macro_name']!r} instead of {mac.name!r}")
        if lc(mm) != pos[n.key]:
            bad("macro position", m, f"{m} is mapped to {lc(mm)}, it is written at {pos[n.key]}")
        # return address
        own = exp_ops[eid]
        hi = max(own)
        ra = e["return_addr"]
        nxt = [o.off for o in allops if o.off > hi and o.off in made and o.off not in own]
        nxt = min(nxt) if nxt else None
        if not isinstance(ra, int) or isinstance(ra, bool) or ra <= hi or (nxt is not None and ra > nxt):
            bad("return address", m, f"{m} has the return address {ra!r}; its expansion of {mac.name} ends at {hi}, the next op is {nxt}")
        if e["called_in"] is not None and m.off != min(own):
            bad("called in on a later op", m, f"{m} says it was called in {e['called_in']!r}; the first op of this expansion of {mac.name} is {own[min(own)]}")
    # calls
    for eid, own in exp_ops.items():
        lo = own[min(own)]
        for n, m in pairs:
            if m is lo and n.exp and n.exp[-1][2] == eid:
                # first op emitted for the expansion? ops in front of it could only be jumps
                mac, call, _ = n.exp[-1]
                caller = n.exp[-2][0] if len(n.exp) > 1 else None
                _d, mm = entry_of(r.smx, m.off)
                if mm is None:
                    continue
                want = (pr.file_of[id(caller)] if caller is not None else None,) + tuple(pos[call])
                ci = mm.d["called_in"]
                prev = [o for o in allops if o.off < m.off and o.r == m.r]
                pj = prev[-1] if prev else None
                if pj is not None and pj.name == "Jump":
                    _pd, pmm = entry_of(r.smx, pj.off)
                    if pmm is not None and pmm.d["called_in"] is not None and tuple(pmm.d["called_in"]) == want and same(pmm.d["macro_name"], mac.name):
                        continue  # a jump is the first op of the expansion
                if first_is_jump(mac) and ci is None:
                    if lone_jump_first(mac):
                        bad("called in, first jump of the macro dropped", m, f"{m}, the first op of an expansion of {mac.name}, does not say where it was called", at="macro that begins with a jump to the next label")
                    continue  # another order of the ops, or a dropped jump
                if ci is None or tuple(ci) != want:
                    bad("called in", m, f"{m}, the first op of an expansion of {mac.name}, says it was called in {ci!r}; the call is at {want}")
                break
    # jumps
    top = {}
    for p, f in list(pr.files.items()) + [(pr.path, pr.main)]:
        ks = []
        for it in f.items:
            if getattr(it, "body", None):
                keys_of(it.body, ks)
        top[p] = {pos[k] for k in ks if k in pos}
    mainpos = top[pr.path]
    for m in allops:
        if m.name != "Jump":
            continue
        d, mm = entry_of(r.smx, m.off)
        if d is not None:
            if lc(d) not in mainpos:
                bad("jump position", m, f"{m} is mapped to {lc(d)}, no statement of the file begins there")
        else:
            mac = [(x, pr.file_of[id(x)]) for x in pr.macros.values() if same(x.name, mm.d["macro_name"])]
            if not mac or mac[0][1] != mm.d["relpath_included_file"]:
                bad("jump macro", m, f"{m} names {mm.d['macro_name']!r} in {mm.d['relpath_included_file']!r}")
            elif lc(mm) not in {pos[k] for k in keys_of(mac[0][0].body, []) if k in pos}:
                bad("jump position", m, f"{m} is mapped to {lc(mm)}, no statement of macro {mm.d['macro_name']} begins there")
    # plain jump statements behind a plain operation at the top level of a routine or macro (no block adds jumps there)
    adj = set()
    for it in list(pr.main.items) + list(pr.macros.values()):
        b = getattr(it, "body", None) or []
        for x, y, z in zip(b, b[1:], b[2:] + [None]):
            if isinstance(x, Simple) and (isinstance(y, Jump) and isinstance(it, Routine) or isinstance(y, (Simple, Jump)) and isinstance(z, Simple)):
                adj.add((id(x), id(y)))
    for n, m in pairs:
        if n.kind != "op" or n.a is None or n.a.kind != "eps" or n.a.jkey is None:
            continue
        if (id(n.key), id(n.a.jkey)) not in adj:
            continue
        j = c.next(m)
        if j is None or j.name != "Jump":
            continue
        st = n.a
        ks = []
        while st.kind == "eps" and len(ks) < 50:
            if st.jkey is not None:
                ks.append(st.jkey)
            st = st.a
        d, mm = entry_of(r.smx, j.off)
        if lc(d if d is not None else mm) not in {pos[k] for k in ks} and strict_jumps:
            bad("jump position", j, f"{j} is mapped to {lc(d if d is not None else mm)}; the jump statement stands at {pos[ks[0]]}")
    # position marks
    dm = [mark_of(x) for x in r.smx.marks]
    mk = [(f, n, mark_of(x)) for f, n, x in r.smx.macro_marks]
    em = marks_in(r.ops)
    rec = dm + [x[2] for x in mk]
    sk = lambda l: sorted(l, key=repr)
    if {repr(x) for x in rec} != {repr(x) for x in em}:
        bad("position marks", None, f"recorded position marks {sk(rec)}, emitted {sk(em)}")
    elif len(rec) != len(em) and "args" not in name and "deep" not in name:
        bad("position marks", None, f"recorded position marks {sk(rec)}, emitted {sk(em)}")
    for f, nme, mrk in mk:
        ok = [x for x in pr.macros.values() if same(x.name, nme) and pr.file_of[id(x)] == f]
        if not ok:
            bad("position mark file", None, f"the position mark {mrk} names macro {nme!r} in {f!r}")
    # files named by the macro entries
    if pr.files:
        contributed = set()
        for n, m in pairs:
            for x in n.exp[-1:]:
                f = pr.file_of[id(x[0])]
                if f is not None:
                    contributed.add(posixpath.normpath(posixpath.join(posixpath.dirname(pr.path), f)))
        o = P.one(lambda: P.I.call(P.mod("explorerscript.included_usage_map").ns["IncludedUsageMap"], [r.sm, pr.path], {}))
        inc = set(o.d["included_files"]) if not hasattr(o, "trace") else o.text
        if inc != contributed:
            bad("included files", None, f"IncludedUsageMap names {inc}, ops came from {contributed}")
    return ("vio", v) if v else ("ok", None)


def lone_jump_first(mac):
    s = [x for x in mac.body if not isinstance(x, Label)][0]
    return isinstance(s, Jump)


def first_is_jump(mac):
    s = mac.body[0]
    while isinstance(s, Label) and len(mac.body) > 1:
        s = mac.body[1]
        break
    return not isinstance(s, (Simple, Block)) or any(nm == "Return" for nm, _ in s.ops)


def dict_items(d):
    return list(d.items())


RULE = "Every emitted op has an entry at the position of its statement/header; macro entries name file, macro, call and return address; position marks equal those emitted."


def items(tier):
    out = []
    for it in control_items(tier, 400 if tier == "quick" else 9):
        out.append(("control", it[0], it))
    for n, b in forms.programs():
        out.append(("form", n, b))
    for n, b in macrofam.programs(tier):
        out.append(("macro", n, b))
    return out


def work(P, it):
    kind, name, b = it
    if kind == "control":
        pr = as_project(build_control(b))
    else:
        pr = as_project(b(fam.G(True)))
    return check(P, name, pr, h32(name) % 4, True)


def main(tier):
    t0 = time.time()
    its = items(tier)
    res, skipped, lines = run_parallel(its, work, 300 if tier == "quick" else 780, Pipe)
    n, vios = summarise(res, skipped)
    return finish("C08", tier, "other", vios, cover(RULE, n, lines, samples=samples(its, res)), t0)
