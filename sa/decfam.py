"""Routine set families for the ExplorerScript decompiler, and one decompile-recompile obligation."""
from __future__ import annotations

import itertools
import zlib

from . import dcode, forms
from .dcode import Head, Raw
from .families import G
from .machine import Bad, Code, JUMPS, same, site, walk
from .model import Model, exact, schemes
from .pipe import Result, code_of, info_norm
from .spec import N, STOP, rep_text, render
from .ssbs import RSet, SOp
from .values import AStr, SInt, Undecided, mkstr

DM = ("DM_CLOSED", "DM_OPEN", "DM_REQUEST", "DM_OPEN_REQUEST")
MARK = "//?: is-ssb-script: true\n"

i_ = lambda n: Raw(("i", n))
c_ = lambda n: Raw(("c", n))
s_ = lambda n: Raw(("s", n))
l_ = lambda d: Raw(("l", tuple(sorted(d.items()))))
f_ = lambda n: Raw(("fx", n))


def O(name, *ps, to=None):
    return SOp(name, list(ps), to)


# ---------------------------------------------------------------- families
def from_source(P, prog):
    """A schema program, compiled: the routine set, or None when it is not compiled."""
    src = render(prog.toks())[0]
    r = P.compile(src)
    if not r.ok:
        return None
    return dcode.from_code(code_of(r), r.infos, r.named)


def points(ns):
    return [(r, i) for r, n in enumerate(ns) for i in range(n)]


def split(flat, ns):
    it = iter(flat)
    return [list(itertools.islice(it, n)) for n in ns]


def graph(ns, flat):
    """flat: one letter code per op: 'o' | 'R' | ('J'|'B'|'C'|'K', (r, i)) | 'S'"""
    rows = []
    for r, row in enumerate(split(flat, ns)):
        ops = []
        for i, o in enumerate(row):
            if o == "o":
                ops.append(O(f"op{r}_{i}"))
            elif o == "R":
                ops.append(O("Return"))
            elif o == "S":
                ops.append(O("Switch", c_(f"$V{r}_{i}")))
            elif o[0] == "J":
                ops.append(O("Jump", to=o[1]))
            elif o[0] == "C":
                ops.append(O("Call", to=o[1]))
            elif o[0] == "B":
                ops.append(O("Branch", c_(f"$V{r}_{i}"), i_(i), to=o[1]))
            elif o[0] == "K":
                ops.append(O("Case", i_(i), to=o[1]))
        rows.append((Head(), ops))
    return RSet(rows)


def graphs(ns, kinds, mod, seed=0):
    """All op graphs of the shape in which every op can be reached and which are well-formed (1 of mod, by hash)."""
    pts = points(ns)
    alpha = []
    for k in kinds:
        alpha += [(k, t) for t in pts] if k in "JBCK" else [k]
    for flat in thinned(alpha, len(pts), mod, repr((ns, kinds, seed))):
        if "K" in kinds and not cases_ok(flat, ns):
            continue
        rs = graph(ns, flat)
        if dcode.wellformed(rs) or len(dcode.reachable(rs)) < len(flat):
            continue
        yield ns, flat


def thinned(alpha, n, mod, salt):
    """The words of length n over alpha; of every `mod` consecutive ones a pseudo-random one."""
    total = len(alpha) ** n
    for j in range(0, total, mod):
        i = j if mod == 1 else j + zlib.crc32(f"{salt}{j}".encode()) % mod
        if i >= total:
            return
        w = []
        for _ in range(n):
            i, r = divmod(i, len(alpha))
            w.append(alpha[r])
        yield tuple(reversed(w))


def cases_ok(flat, ns):
    """Case ops stand behind a Switch or another Case and nowhere else; a Switch has a case."""
    for row in split(flat, ns):
        prev = None
        for o in row:
            if o[0] == "K" and not (prev == "S" or prev and prev[0] == "K"):
                return False
            if prev == "S" and o[0] != "K":
                return False
            prev = o
        if prev == "S":
            return False
    return True


SEQ = {
    "o": lambda k, L: O(f"op{k}"),
    "a": lambda k, L: O(f"op{k}", i_(k), c_("C1"), s_("text")),
    "X": lambda k, L: O("lives", c_("ACTOR_A")),
    "Y": lambda k, L: O("object", i_(3)),
    "R": lambda k, L: O("Return"),
    "E": lambda k, L: O("End"),
    "T": lambda k, L: O("message_SwitchTalk", c_(f"$V{k}")),
    "M": lambda k, L: O("message_SwitchMonologue", c_(f"$V{k}")),
    "t": lambda k, L: O("CaseText", i_(k), s_("t")),
    "d": lambda k, L: O("DefaultText", s_("d")),
    "S": lambda k, L: O("Switch", c_(f"$V{k}")),
    "N": lambda k, L: O("SwitchScenario", c_(f"$V{k}")),
    "D": lambda k, L: O("SwitchDungeonMode", c_(f"D{k}")),
    "m": lambda k, L: O("message_SwitchMenu", i_(1), i_(2)),
    "f": lambda k, L: O("flag_Set", c_(f"$V{k}"), i_(k)),
    "p": lambda k, L: O("ProcessSpecial", i_(1), i_(2), i_(3)),
    "K0": lambda k, L: O("Case", i_(k), to=(0, 0)),
    "KL": lambda k, L: O("Case", i_(k), to=(0, L)),
    "kL": lambda k, L: O("CaseMenu", s_(f"m{k}"), to=(0, L)),
    "qL": lambda k, L: O("CaseScenario", i_(3), i_(k), to=(0, L)),
    "B0": lambda k, L: O("Branch", c_(f"$V{k}"), i_(k), to=(0, 0)),
    "BL": lambda k, L: O("BranchDebug", i_(1), to=(0, L)),
    "bL": lambda k, L: O("BranchBit", c_(f"$V{k}"), i_(k), to=(0, L)),
    "J0": lambda k, L: O("Jump", to=(0, 0)),
    "JL": lambda k, L: O("Jump", to=(0, L)),
    "CL": lambda k, L: O("Call", to=(0, L)),
    "C0": lambda k, L: O("Call", to=(0, 0)),
}


def seqs(n, names=None, mod=1, seed=0):
    names = names or list(SEQ)
    for w in itertools.product(names, repeat=n):
        if mod > 1 and zlib.crc32(" ".join(w).encode()) % mod != seed % mod:
            continue
        yield w


def seq(w, tail="R"):
    L = len(w)
    return RSet([(Head(), [SEQ[x](k, L) for k, x in enumerate(w)] + [SEQ[tail](L, L)])])


def wrap(*ops):
    """one op form in a routine of its own"""
    return RSet([(Head(), [O("first"), *ops, O("last"), O("Return")])])


def opforms():
    """name -> routine set; every documented op form as a reader delivers it, with every operator and operand kind."""
    V = c_("$VAR")
    vals = {"i": i_(5), "neg": i_(-2), "zero": i_(0), "c": c_("CONST"), "v": c_("$OTHER"), "fx": f_("1.25")}

    def br(name, *ps):
        # first; test -> then; else op; jump end; then op; end
        return RSet([(Head(), [O("first"), O(name, *ps, to=(0, 4)), O("els"), O("Jump", to=(0, 5)), O("thn"), O("last"), O("Return")])])

    for k, v in vals.items():
        yield f"Branch {k}", br("Branch", V, v)
        yield f"flag_Set {k}", wrap(O("flag_Set", V, v))
        yield f"flag_CalcBit {k}", wrap(O("flag_CalcBit", V, i_(3), v))
        yield f"flag_SetPerformance {k}", wrap(O("flag_SetPerformance", i_(4), v))
        yield f"flag_SetAdventureLog {k}", wrap(O("flag_SetAdventureLog", v))
        for o in range(5):
            yield f"flag_CalcValue {o} {k}", wrap(O("flag_CalcValue", V, i_(o), v))
            yield f"flag_CalcVariable {o} {k}", wrap(O("flag_CalcVariable", V, i_(o), v))
        for o in range(11):
            yield f"BranchValue {o} {k}", br("BranchValue", V, i_(o), v)
            yield f"BranchVariable {o} {k}", br("BranchVariable", V, i_(o), v)
        yield f"flag_Set var {k}", wrap(O("flag_Set", v, i_(1)))
        yield f"flag_Clear {k}", wrap(O("flag_Clear", v))
        yield f"flag_Initial {k}", wrap(O("flag_Initial", v))
        yield f"flag_ResetScenario {k}", wrap(O("flag_ResetScenario", v))
        yield f"flag_SetScenario {k}", wrap(O("flag_SetScenario", v, i_(7), i_(9)))
        yield f"lives {k}", wrap(O("lives", v), O("ctxd", i_(1)))
        yield f"object {k}", wrap(O("object", v), O("ctxd"))
        yield f"performer {k}", wrap(O("performer", v), O("ctxd", i_(1), c_("X")))
        yield f"lives flag {k}", wrap(O("lives", v), O("flag_Set", V, i_(1)))
        for w in ("message_SwitchTalk", "message_SwitchMonologue"):
            yield f"{w} {k}", wrap(O(w, v), O("CaseText", i_(0), s_("a")), O("CaseText", i_(1), l_({"english": "e", "french": "f"})), O("DefaultText", s_("d")))
        yield f"CaseText {k}", wrap(O("message_SwitchTalk", V), O("CaseText", v, s_("a")))
        yield f"BranchBit {k}", br("BranchBit", V, v)
        yield f"BranchBit var {k}", br("BranchBit", v, i_(1))
    for n in range(-1, 6):
        yield f"flag_SetDungeonMode {n}", wrap(O("flag_SetDungeonMode", c_("DUNGEON"), i_(n)))
    yield "flag_SetDungeonMode const", wrap(O("flag_SetDungeonMode", c_("DUNGEON"), c_("OTHER")))
    yield "flag_SetDungeonMode intdungeon", wrap(O("flag_SetDungeonMode", i_(8), i_(1)))
    yield "flag_ResetDungeonResult", wrap(O("flag_ResetDungeonResult"))
    for nm in ("BranchDebug", "BranchEdit", "BranchVariation"):
        for n in (0, 1):
            yield f"{nm} {n}", br(nm, i_(n))
    for n in (0, 1):
        yield f"BranchPerformance {n}", br("BranchPerformance", i_(5), i_(n))
    for nm in ("BranchScenarioNow", "BranchScenarioNowAfter", "BranchScenarioNowBefore", "BranchScenarioAfter", "BranchScenarioBefore"):
        yield nm, br(nm, V, i_(7), i_(2))
    yield "BranchExecuteSub", br("BranchExecuteSub", i_(3))
    yield "BranchSum", br("BranchSum", i_(3), i_(2), c_("CONST"))
    for ctx in ("lives", "object", "performer"):
        for nm, o in (("Return", []), ("End", []), ("message", [O("message_SwitchTalk", V), O("CaseText", i_(0), s_("a"))]), ("flag", [O("flag_Clear", V)]),
                      ("ctx", [O("lives", i_(1)), O("x")]), ("dm", [O("flag_SetDungeonMode", c_("DUNGEON"), i_(2))])):
            yield f"{ctx} {nm}", wrap(O(ctx, c_("ACTOR")), *(o or [O(nm)]))
    heads = {"Switch": [V], "SwitchScenario": [V], "SwitchScenarioLevel": [V], "SwitchRandom": [i_(9)], "SwitchDungeonMode": [c_("DUNGEON")], "SwitchSector": [],
             "SwitchValue": [V], "SwitchVariable": [V], "SwitchLives": [i_(1)], "SwitchDirection": [i_(1)], "SwitchDirectionLives": [i_(1)], "SwitchDirectionLives2": [i_(1)], "SwitchDirectionMark": [i_(1)],
             "message_SwitchMenu": [i_(1), i_(2)], "message_SwitchMenu2": [i_(1)], "message_Menu": [i_(9)], "main_EnterAdventure": [i_(1), i_(2)], "main_EnterRescueUser": [], "main_EnterTraining": [i_(1), i_(2)],
             "main_EnterTraining2": [i_(1), i_(2)], "ProcessSpecial": [i_(1), i_(2), i_(3)]}
    cases = {"Case": [[i_(n)] for n in (0, 1, 3, 7, -1)] + [[c_("CONST")], [c_("$V")]], "CaseMenu": [[s_("menu")], [l_({"english": "a", "german": "b"})]], "CaseMenu2": [[i_(4)], [c_("CONST")]],
             "CaseValue": [[i_(o), i_(2)] for o in range(11)] + [[i_(3), c_("CONST")]], "CaseVariable": [[i_(o), c_("$W")] for o in range(11)] + [[i_(3), i_(2)]], "CaseScenario": [[i_(o), i_(2)] for o in range(11)]}
    for h, hp in heads.items():
        yield f"{h} alone", wrap(O(h, *hp))
        for cn, ps in cases.items():
            for j, p in enumerate(ps):
                if h != "Switch" and j and not (h in ("SwitchDungeonMode", "SwitchScenario") and cn in ("Case", "CaseScenario")):
                    continue
                yield f"{h} {cn} {'/'.join(str(x.norm[1]) if x.norm[0] != 'l' else 'lang' for x in p)}", RSet([(Head(), [O("first"), O(h, *hp), O(cn, *p, to=(0, 5)), O(cn, *(ps[j - 1]), to=(0, 7)), O("Jump", to=(0, 9)),
                                                O("inA"), O("Jump", to=(0, 9)), O("inB"), O("Jump", to=(0, 9)), O("last"), O("Return")])])


def headforms():
    body = lambda k: [O(f"op{k}"), O("Return")]
    for kind in ("ACTOR", "OBJECT", "PERFORMER"):
        for nm, l in (("c", ("c", "LINK")), ("i", ("i", 7)), ("0", ("i", 0))):
            yield f"{kind} {nm}", RSet([(Head(), body(0)), (Head(kind, l), body(1)), (Head(), body(2))])
            yield f"{kind} {nm} empty", RSet([(Head(), body(0)), (Head(kind, l), []), (Head(), body(2))])
    yield "coros", RSet([(Head("COROUTINE", None, "N_A"), body(0)), (Head("COROUTINE", None, "N_B"), []), (Head("COROUTINE", None, "N_C"), body(2))])
    yield "mixed", RSet([(Head(), body(0)), (Head("COROUTINE", None, "N_B"), body(1)), (Head("ACTOR", ("c", "A")), body(2))])
    yield "empty", RSet([(Head(), body(0)), (Head(), []), (Head(), [])])
    yield "many", RSet([(Head(), body(k)) for k in range(12)])
    yield "none", RSet([])
    X = lambda *t: O("Jump", to=t)
    yield "to last op", RSet([(Head(), [O("o1"), O("Return")]), (Head(), [O("o2"), X(0, 1)]), (Head(), [O("o3"), X(1, 1)])])
    yield "to first op", RSet([(Head(), [O("o1"), X(1, 0)]), (Head(), [O("o2"), X(2, 0)]), (Head(), [O("o3"), O("End")])])
    yield "back", RSet([(Head(), [O("o1"), O("End")]), (Head(), [O("o2"), X(0, 0)]), (Head(), [O("Branch", c_("$V"), i_(1), to=(1, 0)), X(0, 0)])])
    yield "past empty", RSet([(Head(), [O("o1"), X(2, 1)]), (Head(), []), (Head(), [O("o2"), O("o3"), O("Return")]), (Head(), []), (Head(), [X(2, 2)])])


# ---------------------------------------------------------------- one obligation
def dmnorm(name, ps, dmcase):
    """The configured dungeon mode constants stand for 0..3."""
    k = 1 if name == "flag_SetDungeonMode" else 0 if name == "Case" and dmcase else None
    if k is not None and k < len(ps) and ps[k][0] == "c":
        for n, c in enumerate(DM):
            if same((ps[k][1],), (c,)):
                return ps[:k] + [("i", n)] + ps[k + 1:]
    return ps


class Out:
    def __init__(self):
        self.status = None  # raised | ssb | exps
        self.text = self.sm = self.model = self.res = self.code = None


def decompile(P, rs, num="0,1,..", ssbs=False, **kw):
    o = Out()
    I = P.I

    def go():
        o.model = Model(P, rs, schemes()[num])
        if ssbs:
            t, sm = I.iterate(I.call_method(o.model.ssbs_decompiler(P), "convert", [], {"prefix": MARK}))
            return t, sm
        t, sm = I.iterate(I.call_method(o.model.exps_decompiler(P, dm=DM, **kw), "convert", []))
        return t, sm

    old = I.max_depth, I.rec_exc
    I.max_depth, I.rec_exc = 900, True
    try:
        t = P.one(go)
    finally:
        I.max_depth, I.rec_exc = old
    if isinstance(t, Result):
        o.status, o.res = "raised", t
        return o
    o.text, o.sm = t
    o.status = "ssb" if rep_text(o.text).startswith("//?:") or "is-ssb-script" in rep_text(o.text)[:40] else "exps"
    return o


def describe(o, rs):
    d = o.model.describe() if o.model else ""
    return d + ("\n// text\n" + rep_text(o.text) if o.text is not None else "")


def fail(r):
    return f"{r.name}: {r.text} at " + " <- ".join(f"{f.split('/explorerscript/')[-1]}:{q}:{l}" for q, f, l in r.trace[:4])


def where(r):
    for q, f, l in r.trace:
        if "explorerscript" in f:
            return f"{f.split('/explorerscript/')[-1]}:{q}"
    return "?"


def recompile(P, o):
    o.res = P.compile(o.text)
    if o.res.ok:
        o.code = Code(o.res.ops)
        dmcase = any(x.name == "SwitchDungeonMode" for _h, ops in o.model.rset.routines for x in ops)
        for row in o.code.routines:
            for m in row:
                m.params = dmnorm(m.name, m.params, dmcase)
    return o.res.ok


def judge_answer(P, o, rs):
    """C06: an answer, and exact when it is SsbScript. -> [(rule, construct, msg)]"""
    if o.status == "raised":
        return [("raises", where(o.res), f"the decompiler raises {fail(o.res)}")]
    if o.status != "ssb":
        return []
    if not rep_text(o.text).startswith(MARK):
        return [("marker", "ssb_decompiler.convert", f"the SsbScript text does not start with the marker line: {rep_text(o.text)[:60]!r}")]
    if not recompile(P, o):
        return [("fallback not compiled", where(o.res), f"the SsbScript text is not compiled: {fail(o.res)}")]
    e = exact(o.model, o.res.ops, o.res.infos, o.res.named)
    return [("fallback " + e[0], "ssb_script", e[1])] if e else []


def judge_behaviour(P, o, rs):
    """C02 -> [(rule, construct, msg)]"""
    if o.status == "raised":
        return [("no text", where(o.res), f"the decompiler raises {fail(o.res)}")]
    if not recompile(P, o):
        return [("not compiled", where(o.res), f"the decompiled text is not compiled: {fail(o.res)}")]
    r, c = o.res, o.code
    if len(c.routines) != len(rs.routines):
        return [("routines", "routine count", f"{len(c.routines)} routines instead of {len(rs.routines)}")]
    v = []
    for k, (n, (h, ops)) in enumerate(zip(dcode.lts(rs), rs.routines)):
        kind, l, ln = info_norm(r.infos[k])
        got = (kind, (("c", ln) if ln is not None else ("i", l)) if h.linked else None)
        if not same(got, (h.kind, h.linked)):
            v.append(("routine info", "routine header", f"routine {k} is {h.kind} for {h.linked}, comes back as {got}"))
        if h.kind == "COROUTINE" and not same((r.named[k],), (h.name,)):
            v.append(("coroutine name", "routine header", f"coroutine {k} is {h.name}, comes back as {r.named[k]}"))
        if n == "alias":
            if c.routines[k]:
                v.append(("empty routine", "routine header", f"routine {k} has no ops, comes back with {c.routines[k]}"))
            continue
        try:
            walk(n, c, c.routines[k][0] if c.routines[k] else None)
        except Bad as e:
            v.append(("behaviour: " + e.rule, site(e.op), f"routine {k}: {e.msg}"))
    return v
