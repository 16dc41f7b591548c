"""C09: the source map of decompiled text against the text and against the map of its compilation."""
from __future__ import annotations

import re

from . import dcode
from . import decfam as D
from .dcode import Head
from .decfam import O, c_, i_, l_, s_
from .machine import Bad, JUMPS, walk
from .pipe import SM
from .spec import rep_text
from .ssbs import RSet
from .values import Undecided

SWITCHES = ("Switch", "SwitchSector", "SwitchScenario", "SwitchRandom", "SwitchScenarioLevel", "SwitchDungeonMode", "ProcessSpecial", "message_Menu", "message_SwitchMenu", "message_SwitchMenu2", "main_EnterAdventure", "main_EnterRescueUser", "main_EnterTraining", "main_EnterTraining2")
OWN = {"Return": ("return;",), "End": ("end;",), "Hold": ("hold;",), "CaseText": ("case ",), "DefaultText": ("default:",), "Jump": ("jump @", "break;", "continue;", "break_loop;"), "Call": ("call @",),
       "lives": ("with (actor ",), "object": ("with (object ",), "performer": ("with (performer ",), "message_SwitchTalk": ("message_SwitchTalk ",), "message_SwitchMonologue": ("message_SwitchMonologue ",),
       "flag_Clear": ("clear ",), "flag_Initial": ("init ",), "flag_ResetDungeonResult": ("reset dungeon_result;",), "flag_ResetScenario": ("reset scn(",), "flag_SetAdventureLog": ("adventure_log = ",),
       "flag_SetDungeonMode": ("dungeon_mode(",), "flag_SetPerformance": ("$PERF[",)}


def rep(x):
    return rep_text(x) if not isinstance(x, (int, type(None))) else str(x)


def starts(o):
    """How the statement of the op may begin."""
    n = rep(o.name)
    out = list(OWN.get(n, ())) + [n + "(", n + "<"]
    if n.startswith("Branch"):
        out += ["if (", "if not (", "elseif (", "elseif not ("]
    if n in SWITCHES:
        out.append("switch (")
    if n.startswith("Case"):
        out.append("case ")
    if n in ("flag_Set", "flag_CalcBit", "flag_CalcValue", "flag_CalcVariable", "flag_SetScenario") and o.params:
        p = o.params[0].norm
        out += [rep(p[1]) + e for e in (" ", "[")]
    return out


def judge_map(P, o, rs, ssbs=False):
    """-> [(rule, construct, msg)]"""
    if o.status == "raised":
        return [("no text", D.where(o.res), f"the decompiler raises {D.fail(o.res)}")]
    t = rep_text(o.text)
    lines = t.split("\n")
    sm = SM(P, o.sm)
    ent = sm.direct
    pos = {v: k for k, v in o.model.offs.items()}
    v = []
    if sm.macros:
        v.append(("macro entries", "SourceMapBuilder", f"the map of a decompilation has entries of macros: {sm.macros}"))
    for k, e in ent.items():
        if k not in pos:
            v.append(("keys", "source_map_add_opcode", f"entry for offset {k}, which no input op has"))
            continue
        r, i = pos[k]
        op = rs.routines[r][1][i]
        l, c = e.d["line"], e.d["column"]
        at = lines[l] if l < len(lines) else None
        if at is None or c > len(at):
            v.append(("position", rep(op.name), f"op {k} ({rep(op.name)}) is listed at {l}:{c}, the text has no such place"))
            continue
        before, here = at[:c], at[c:]
        ctx = {"lives": "actor", "object": "object", "performer": "performer"}.get(rep(op.name))
        inline = ctx is not None and re.match(r"\w+<%s " % ctx, here)
        if not (inline or any(here.startswith(s) for s in starts(op))) or before.strip(" ") not in ("", "}"):
            v.append(("position", kind(op), f"op {k} ({rep(op.name)}) is listed at {l}:{c}, there the text is {here[:40]!r} (behind {before[-12:]!r})"))
    if not D.recompile(P, o):
        return v + [("not compiled", D.where(o.res), f"the decompiled text is not compiled: {D.fail(o.res)}")]
    rsm = SM(P, o.res.sm).direct
    line = lambda m: rsm[m.off].d["line"] if m.off in rsm else None
    code = o.code
    pairs = {}  # input position -> recompiled ops
    if o.status == "ssb":
        for r, (_h, ops) in enumerate(rs.routines):
            if len(ops) != len(code.routines[r]):
                raise Undecided("the fallback is not exact")
            for i, _o in enumerate(ops):
                pairs[(r, i)] = [code.routines[r][i]]
    else:
        nodes = {}
        ent_nodes = dcode.lts(rs, nodes)
        where = {id(n): k for k, n in nodes.items()}
        for r, n in enumerate(ent_nodes):
            if n == "alias":
                continue
            pl = []
            try:
                walk(n, code, code.routines[r][0] if code.routines[r] else None, pairs=pl)
            except Bad as e:
                raise Undecided("the recompiled text differs (C02): " + e.rule)
            for n_, m in pl:
                ms = pairs.setdefault(where[id(n_)], [])
                if m not in ms:
                    ms.append(m)
    here = {}
    for m in (m for row in code.routines for m in row):
        here.setdefault(line(m), []).append(m)
    branch_lines = {ent[o.model.offs[k]].d["line"] for k in pairs if o.model.offs[k] in ent and rep(rs.routines[k[0]][1][k[1]].name).startswith("Branch")}
    for k, ms in pairs.items():
        op = rs.routines[k[0]][1][k[1]]
        off = o.model.offs[k]
        ls = [line(m) for m in ms]
        if None in ls:
            v.append(("recompiled map", kind(op), f"the op {ms[ls.index(None)]} of the recompiled text has no entry"))
            continue
        if off not in ent:
            if rep(op.name).startswith("Branch") and any(x in branch_lines for x in ls):
                continue  # a later test of one `||` header: no statement of its own
            v.append(("missing entry", kind(op), f"op {off} ({rep(op.name)}) is printed in line {ls[0]}, the map has no entry for it"))
            continue
        if ent[off].d["line"] not in ls:
            v.append(("line", kind(op), f"op {off} ({rep(op.name)}) is listed in line {ent[off].d['line']}, the op compiled from the text is in line {ls}"))
    if o.status != "ssb":
        rev = {}
        for k, ms in pairs.items():
            for m in ms:
                rev.setdefault(m.off, set()).add(k)
        live = dcode.reachable(rs)
        for k, e in ent.items():
            if k not in pos or pos[k] not in live:
                continue
            r, i = pos[k]
            op = rs.routines[r][1][i]
            if rep(op.name) != "Jump":
                continue
            d = (r, i)
            seen = set()
            while rep(rs.routines[d[0]][1][d[1]].name) == "Jump" and d not in seen:
                seen.add(d)
                d = rs.routines[d[0]][1][d[1]].target
            js = [m for m in here.get(e.d["line"], []) if m.name == "Jump"]
            if not any(getattr(code.settle(m), "off", None) is not None and d in rev.get(code.settle(m).off, ()) for m in js) and js:
                v.append(("jump", "Jump", f"op {k} (Jump) is listed in line {e.d['line']}, the jump there goes elsewhere"))
    return v


def kind(op):
    n = rep(op.name)
    return n if n in JUMPS or n in OWN or n in SWITCHES or n.startswith("flag_") else "operation"


# ---------------------------------------------------------------- multi-line parameters
ML = {"plain": s_("x"), "two": s_("a\nb"), "lead": s_("\nab"), "trail": s_("ab\n"), "three": s_("a\n\nb"), "apos": s_("it's\nb"), "lang1": l_({"english": "a"}), "lang": l_({"english": "a", "french": "b"}), "separators": s_("a\u2028b\x0bc\x85d\x1ce"), "separators ml": s_("a\u2029b\nc\x0bd"), "langsep": l_({"english": "a\u2028b", "french": "c\x1dd\n\ne"}), "langml": l_({"english": "a\nb", "french": "c\n\nd"})}


def ml_uses(v):
    """name -> ops that print the value"""
    V = c_("$V")
    yield "arg", [O("ox", v)]
    yield "arg2", [O("ox", i_(1), v, v)]
    yield "ctx", [O("lives", c_("A")), O("ox", v, i_(2))]
    yield "talk", [O("message_SwitchTalk", V), O("CaseText", i_(0), v), O("CaseText", i_(1), v), O("DefaultText", v)]
    yield "mono", [O("message_SwitchMonologue", V), O("DefaultText", v)]


def shift(ops, d):
    return [O(o.name, *o.params, to=None if o.target is None else (0, o.target[1] + d)) for o in ops]


def ml_nests():
    """name -> function(ops) -> routine ops"""
    V = c_("$N")

    def flat(body):
        return body

    def iff(body):
        n = len(body)
        # Branch -> 2 ; Jump -> end ; body
        return [O("Branch", V, i_(1), to=(0, 2)), O("Jump", to=(0, 2 + n))] + shift(body, 2)

    def ifelse(body):
        n = len(body)
        e = list(body)
        return [O("Branch", V, i_(1), to=(0, n + 2))] + shift(e, 1) + [O("Jump", to=(0, 2 * n + 2))] + shift(body, n + 2)

    def elif_(body):
        n = len(body)
        return [O("Branch", V, i_(1), to=(0, 3)), O("BranchBit", V, i_(2), to=(0, 4 + n)), O("Jump", to=(0, 4 + 2 * n))] + shift(body, 3) + [O("Jump", to=(0, 4 + 2 * n))] + shift(body, 4 + n)

    def sw(body):
        n = len(body)
        return [O("Switch", V), O("Case", i_(1), to=(0, 4)), O("CaseValue", i_(3), i_(2), to=(0, 5 + n)), O("Jump", to=(0, 6 + 2 * n))] + shift(body, 4) + [O("Jump", to=(0, 6 + 2 * n))] + shift(body, 5 + n) + [O("Jump", to=(0, 6 + 2 * n))]

    def menu(v):
        def f(body):
            n = len(body)
            return [O("message_SwitchMenu", i_(1), i_(2)), O("CaseMenu", v, to=(0, 4)), O("CaseMenu", v, to=(0, 5 + n)), O("Jump", to=(0, 6 + 2 * n))] + shift(body, 4) + [O("Jump", to=(0, 6 + 2 * n))] + shift(body, 5 + n) + [O("Jump", to=(0, 6 + 2 * n))]

        return f

    def loop(body):
        n = len(body)
        return [O("Branch", V, i_(7), to=(0, n + 2))] + shift(body, 1) + [O("Jump", to=(0, 0))]

    return {"top": flat, "if": iff, "ifelse": ifelse, "elseif": elif_, "switch": sw, "loop": loop}, menu


def ml_items():
    nests, menu = ml_nests()
    mk = lambda body: RSet([(Head(), [O("o0")] + shift(body, 1) + [O("last"), O("Return")]), (Head(), [O("o9"), O("End")])])
    for vn, v in ML.items():
        for un, ops in ml_uses(v):
            body = [O("b0")] + ops + [O("b1"), O("flag_Set", c_("$F"), i_(1))]
            for a, fa in nests.items():
                yield f"{vn} {un} {a}", mk(fa(body))
                for b, fb in nests.items():
                    if a != "top" and b != "top" and un in ("arg", "talk"):
                        yield f"{vn} {un} {a}/{b}", mk(fa(fb(body) + [O("b2")]))
        for a, fa in nests.items():
            yield f"{vn} menu {a}", mk(fa(menu(v)([O("b0"), O("ox", v)])))


def ml_headers(v):
    """name -> ops that print the value in a header; every jump stays inside"""
    V = c_("$V")
    yield "ifsum", [O("BranchSum", i_(1), v, i_(2), to=(0, 2)), O("Jump", to=(0, 3)), O("ox", v), O("o2")]
    yield "ifsum-else", [O("BranchSum", v, i_(2), v, to=(0, 3)), O("ox", v), O("Jump", to=(0, 4)), O("oy"), O("o2")]
    yield "exec", [O("BranchExecuteSub", v, to=(0, 2)), O("Jump", to=(0, 3)), O("oy"), O("o2")]
    yield "elseif", [O("Branch", V, i_(1), to=(0, 3)), O("BranchSum", i_(1), i_(2), v, to=(0, 5)), O("Jump", to=(0, 6)), O("ox", v), O("Jump", to=(0, 6)), O("oy"), O("o2")]
    yield "switch", [O("SwitchLives", v), O("Case", i_(1), to=(0, 3)), O("Jump", to=(0, 4)), O("ox", v), O("o2")]
    yield "menu2", [O("message_SwitchMenu2", i_(1), v), O("CaseMenu2", c_("CC"), to=(0, 4)), O("CaseMenu2", i_(1), to=(0, 5)), O("Jump", to=(0, 6)), O("ox", v), O("oy"), O("o2")]
    yield "loop", [O("BranchSum", v, i_(1), i_(2), to=(0, 3)), O("ox", v), O("Jump", to=(0, 0)), O("o2")]
    yield "talk", [O("message_SwitchTalk", V), O("CaseText", c_("CC"), v), O("DefaultText", v), O("o2")]
    yield "lives", [O("lives", c_("CC")), O("ox", v), O("o2")]


def ml_header_items():
    nests, _m = ml_nests()
    mk = lambda body: RSet([(Head(), [O("o0")] + shift(body, 1) + [O("last"), O("Return")]), (Head(), [O("o9"), O("End")])])
    for vn, v in ML.items():
        for un, ops in ml_headers(v):
            for a, fa in nests.items():
                yield f"{vn} hdr-{un} {a}", mk(fa([O("b0")] + shift(ops, 1)))
