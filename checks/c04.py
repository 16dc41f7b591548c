"""C04: parameter values survive printing and parsing; literals denote what the documentation says."""
from __future__ import annotations

from .common import *
from sa import decfam as D
from sa import mapfam as M
from sa import strfam as S
from sa.decfam import O, c_, i_, l_, s_
from sa.model import Model, schemes, ssbs_compile
from sa.pipe import Result
from sa.ssbs import RSet

RULE = ("Printing: every content of the string families (texts with quotes, backslashes, newlines, blanks, delimiters and other separators in every arrangement of the bound; unknown texts are atoms) is printed as a constant string and "
        "in language strings, directly at several depths and by both decompilers in every place and depth, and must be compiled back to the same content whenever some literal denotes it (decided by listing the literals of the "
        "grammar with the documented reading rules); numbers, constants and position marks likewise. Reading: every spelling of the bound must be compiled to the value the documentation gives.")

LISTENER = "no literal denotes the content"
p_ = lambda name, x, y, a, b: D.Raw(("p", name, x, y, a, b))


def text_of(P, v, indent):
    I = P.I
    o = Model.param(FakeModel(P), v)
    if indent is not None:
        I.setattr(o, "indent", indent)
    return I.str(o)


class FakeModel:
    def __init__(self, P):
        from sa.pipe import DATA

        self.I, self.ns = P.I, P.mod(DATA).ns


def wanted(v, q):
    """Does the compiled parameter (normal form) equal the printed one?"""
    n = v.norm
    if n[0] == "l":
        return same(("l", tuple(sorted(n[1]))), q)
    if n[0] == "fx":
        return q[0] == "fx" and S.decimal_value(str(n[1])) == S.decimal_value(str(q[1]))
    if n[0] == "fl":
        return q[0] == "fx" and S.decimal_value(str(q[1])) == S.decimal_value(exact_decimal(n[1]))
    if n[0] == "p":
        half = lambda k: 2 if k > 1 else 0
        return q[0] == "p" and same(n[1:4], q[1:4]) and (half(n[4]), half(n[5])) == (half(q[4]), half(q[5]))
    return same(n, q)


def exact_decimal(x):
    """The decimal that a binary fixed point number is."""
    from decimal import Decimal

    return format(Decimal(x), "f")


def params_of(rows):
    return [[norm_param(p) for p in o.d["params"]] for row in rows for o in row]


def go_direct(P, vals, indent):
    def go():
        ts = []
        for v in vals:
            ts.append(text_of(P, v, indent if v.norm[0] in "sl" else None))
        return ts

    return P.one(go)


def batch(P, vals, mode):
    """-> (list of compiled parameters, text) or (Result, text)"""
    if mode[0] == "ssbs":
        rs = RSet([(M.Head(), [O("ox", v) for v in vals] + [O("Return")])])
        box = {}

        def go():
            m = Model(P, rs, schemes()["1,2,.."])
            box["t"], _sm = P.I.iterate(P.I.call_method(m.ssbs_decompiler(P), "convert", []))
            return ssbs_compile(P, box["t"])

        c = P.one(go)
        if isinstance(c, Result):
            return c, box.get("t", "")
        return [p[0] if p else ("?", "nothing") for p in params_of(c.d["routine_ops"])][: len(vals)], box["t"]
    ts = go_direct(P, vals, mode[1])
    if isinstance(ts, Result):
        return ts, ""
    parts = ["def 0 {\n"]
    for t in ts:
        parts += ["    ox(", t, ");\n"]
    parts.append("    Return();\n}\n")
    src = mkstr(parts)
    if mode[0] == "exps":
        r = P.compile(src)
        if not r.ok:
            return r, src
        rows = r.ops
    else:
        c = P.one(lambda: ssbs_compile(P, src))
        if isinstance(c, Result):
            return c, src
        rows = c.d["routine_ops"]
    return [p[0] if p else ("?", "nothing") for p in params_of(rows)][: len(vals)], src


def shown(v):
    return repr(v.norm[1:])[:200]


def judge_batch(P, vals, mode, names):
    """-> [(name, value, message, text)]"""
    got, text = batch(P, vals, mode)
    if isinstance(got, Result) or len(got) != len(vals) or not all(wanted(v, q) for v, q in zip(vals, got)):
        if len(vals) == 1:
            if isinstance(got, Result):
                return [(names[0], vals[0], f"is not compiled: {fail_text(got)}" if text else f"is not printed: {fail_text(got)}", text)]
            return [(names[0], vals[0], f"comes back as {got[0][1:] if got else 'nothing'!r}", text)]
        h = len(vals) // 2
        return judge_batch(P, vals[:h], mode, names[:h]) + judge_batch(P, vals[h:], mode, names[h:])
    return []


def value(kind, c):
    """kind: s | l | l2 | p"""
    t = S.abstract(c)
    if kind == "s":
        return s_(t)
    if kind == "l":
        return l_({"english": t})
    if kind == "l2":
        return l_({"english": t, "french": S.abstract(S.A + S.B), "german": t})
    return p_(t, 3, 4, 2, 0)


def spelled(kind, c):
    return S.single_for(c) if kind == "p" else S.literal_for(c)


def w_contents(P, it):
    _k, name, kind, mode, cs = it
    bad = []
    known = [c for c in cs if spelled(kind, c) is None]
    good = [c for c in cs if spelled(kind, c) is not None]
    fb = 0
    try:
        bad = judge_batch(P, [value(kind, c) for c in good], mode, good) if good else []
    except Undecided:
        fb = 1
        bad = judge_batch(P, [value(kind, S.concrete(c)) for c in good], mode, good)
    v = [vio("value lost" if kind != "p" else "position mark name lost", "repr_string" if kind != "p" else "SsbOpParamPositionMarker.__str__",
             f"[{mode}] the {'name' if kind == 'p' else 'content'} {S.concrete(c)!r} {m}; {spelled(kind, c)!r} denotes it", rep_text(t)) for c, _v, m, t in bad]
    for c in known[:2]:
        for _c, _v, m, t in judge_batch(P, [value(kind, S.concrete(c))], mode, [c]):
            v.append(vio(LISTENER, "position mark name" if kind == "p" else "string", f"[{mode}] the content {S.concrete(c)!r} {m}", rep_text(t)))
    return ("vio", v) if v else ("ok", (len(good), fb))


def w_places(P, it):
    _k, name, rs = it
    fb = 0
    try:
        o = D.decompile(P, rs, "1,2,..")
        e = D.judge_behaviour(P, o, rs)
    except Undecided:
        fb = 1
        rs = RSet([(h, [O(x.name, *[spell_out(p) for p in x.params], to=x.target) for x in ops]) for h, ops in rs.routines])
        o = D.decompile(P, rs, "1,2,..")
        e = D.judge_behaviour(P, o, rs)
    if e:
        return ("vio", [vio("place: " + r, c, f"[{name}] {m}", D.describe(o, rs)) for r, c, m in e])
    return ("ok", (1, fb))


def spell_out(p):
    """The parameter with its texts written out."""
    n = p.norm
    if n[0] == "s":
        return D.s_(rep_text(n[1]))
    if n[0] == "l":
        return D.l_({k: rep_text(v) for k, v in n[1]})
    return p


def w_values(P, it):
    _k, name, mode, vals = it
    try:
        bad = judge_batch(P, vals, mode, [shown(v) for v in vals])
    except Undecided:
        vals = [spell_out(v) for v in vals]
        bad = judge_batch(P, vals, mode, [shown(v) for v in vals])
    v = [vio("value lost", type_of(x), f"[{mode}] {x.norm[0]} {n} {m}", rep_text(t)) for n, x, m, t in bad]
    return ("vio", v) if v else ("ok", (len(vals), 0))


def type_of(v):
    return {"i": "integer", "fl": "SsbOpParamFixedPoint.from_float", "fx": "SsbOpParamFixedPoint", "c": "SsbOpParamConstant", "p": "SsbOpParamPositionMarker", "s": "repr_string", "l": "repr_string"}[v.norm[0]]


def read(P, pre, lits, post, lang):
    """Compiled parameters of one op per literal. -> list of normal forms or Result"""
    src = mkstr(["def 0 {\n"] + [x for t in lits for x in (pre, t, post)] + ["    Return();\n}\n"])
    if lang == "exps":
        r = P.compile(src)
        if not r.ok:
            return r, src
        rows = r.ops
    else:
        r = P.one(lambda: ssbs_compile(P, src))
        if isinstance(r, Result):
            return r, src
        rows = r.d["routine_ops"]
    return [p for p in params_of(rows)], src


def w_read(P, it):
    """("read", name, lang, pre, post, index of the parameter, pick ops, [(literal, check)])"""
    _k, name, lang, pre, post, idx, opsper, lits = it

    def judge(lits):
        try:
            got, src = read(P, pre, [S.abstract(t) for t, _w in lits], post, lang)
        except Undecided:
            lits = [(S.concrete(t), w if w is None or w[0] not in "sl" else (w[0], S.concrete(w[1]))) for t, w in lits]
            got, src = read(P, pre, [t for t, _w in lits], post, lang)
        if not isinstance(got, Result):
            got = [got[k] for k in range(opsper[1], len(got) - 1, opsper[0])] if len(got) == opsper[0] * len(lits) + 1 else []
            if len(got) == len(lits) and all(w is not None and idx < len(g) and agree(w, g[idx]) for g, (_t, w) in zip(got, lits)):
                return []
        if len(lits) > 1:
            h = len(lits) // 2
            return judge(lits[:h]) + judge(lits[h:])
        t, w = lits[0]
        if isinstance(got, Result):
            if w is None:
                return [] if got.name in ("ParseError", "SsbCompilerError", "ValueError") else [(t, w, fail_text(got), src)]
            return [(t, w, "is not compiled: " + fail_text(got), src)]
        return [(t, w, f"is read as {got[0][idx] if got and idx < len(got[0]) else got}", src)]

    v = []
    good = [x for x in lits if x[1] is not None]
    for part in [good] + [[x] for x in lits if x[1] is None]:
        if part:
            for t, w, m, src in judge(part):
                v.append(vio("literal " + name.split(":")[0], reader_of(name), f"[{name}; {lang}] the literal {S.concrete(t)} {m}" + (f"; it denotes {w!r}" if w is not None else "; it denotes nothing"), rep_text(src)))
    return ("vio", v) if v else ("ok", (len(lits), 0))


def reader_of(name):
    return {"int": "exps_int", "dec": "SsbOpParamFixedPoint.from_str", "single": "singleline_string_literal", "multi": "multiline_string_literal", "pos": "parse_position_marker_arg", "tabs": "multiline_string_literal"}[name.split(":")[0]]


def agree(w, g):
    k = w[0]
    if k == "fx":
        return g[0] == "fx" and S.decimal_value(str(g[1])) == w[1]
    if k == "x":
        return g[0] == "p" and (g[2], g[4]) == w[1]
    if k == "y":
        return g[0] == "p" and (g[3], g[5]) == w[1]
    if k == "s":
        return same(("s", S.abstract(w[1])), g)
    if k == "l":
        return g[0] == "l" and same((S.abstract(w[1]),), (dict(g[1]).get("english"),))
    return same(w, g)


def work(P, it):
    return {"contents": w_contents, "places": w_places, "values": w_values, "read": w_read}[it[0]](P, it)


def chunks(l, n):
    return [l[k : k + n] for k in range(0, len(l), n)]


def values():
    ints = [0, 1, -1, 2, 9, 10, 11, 19, 20, 100, 101, 110, 255, -255, 4095, 16383, 16384, -16384, 32767, -32768, 65535, 2**31, -(2**31), 2**63, 10**20]
    out = [i_(k) for k in ints]
    for t in S.decimals():
        w, _p, f = t.partition(".")
        if w in ("", "-") or w.lstrip("-") != (w.lstrip("-").lstrip("0") or "0"):
            continue
        out.append(D.f_(t))
    out += [c_(x) for x in ("NAME", "$VAR", "A", "a_1", "LEVEL_B01P01A", "$SCENARIO_MAIN", "Position2", "x2", "actor_", "_")]
    for x in (0, 1, -1, 10, 25, 1234567):
        for y in (0, 3, -7):
            for a in (0, 2, 4):
                for b in (0, 2, 4):
                    out.append(p_("m", x, y, a, b))
    return out


def items(tier):
    q = tier == "quick"
    out = []
    nmax = 3 if q else 5
    full = sorted(set(S.contents(nmax)) | {c for c in S.contents(nmax + 1) if h32(c) % (25 if q else 12) == 0} | {c for c in S.big_contents() if not q or h32(c) % 3 == 0} | set(S.CURATED))
    short = [c for c in full if len(c) <= 2 or h32(c + "s") % (6 if q else 2) == 0]
    for k, b in enumerate(chunks(full, 80)):
        out.append(("contents", f"s ssbs {k}", "s", ("ssbs",), b))
    for kind, modes in (("s", [("exps", 0), ("exps", 2), ("read ssbs", 0)]), ("l", [("exps", 0), ("ssbs",), ("exps", 3)]), ("l2", [("ssbs",), ("exps", 1)]), ("p", [("ssbs",), ("exps", None)])):
        for m in modes:
            for k, b in enumerate(chunks([c for c in short if "\n" in c or h32(c + str(m)) % 2 == 0], 60)):
                out.append(("contents", f"{kind} {m} {k}", kind, m, b))
    vs_ = values()
    for m in (("ssbs",), ("exps", 1), ("read ssbs", 0)):
        for k, b in enumerate(chunks(vs_, 60)):
            out.append(("values", f"values {m} {k}", m, b))
    # the fixed point numbers of a binary file: 14 bits of 1/256
    fl = [D.Raw(("fl", k / 256)) for k in range(-16384, 16384) if abs(k) < 260 or k % 256 in (0, 1, 255, 128) or h32(f"fl{k}") % (24 if q else 1) == 0]
    for m in (("ssbs",), ("exps", 1), ("read ssbs", 0)):
        for k, b in enumerate(chunks([x for x in fl if m[0] == "exps" or not q or h32(f"{m}{x.norm}") % 4 == 0], 150)):
            out.append(("values", f"fixed point {m} {k}", m, b))
    out += place_items(q)
    out += read_items(q)
    return out


# Parameters that the grammar spells INTEGER or as an operator: indices, levels of scenarios, operators.
INTEGER_ONLY = {
    **{n: (1, 2) for n in ("flag_SetScenario", "BranchScenarioNow", "BranchScenarioNowAfter", "BranchScenarioNowBefore", "BranchScenarioAfter", "BranchScenarioBefore")},
    **{n: (1,) for n in ("flag_CalcBit", "BranchBit", "flag_CalcValue", "flag_CalcVariable", "BranchValue", "BranchVariable")},
    **{n: (0,) for n in ("flag_SetPerformance", "BranchPerformance", "CaseValue", "CaseVariable", "CaseScenario")},
}


def place_items(q):
    out = []
    nests, menu = M.ml_nests()
    mk = lambda body: RSet([(M.Head(), [O("o0")] + M.shift(body, 1) + [O("last"), O("Return")]), (M.Head(), [O("o9"), O("End")])])
    two = [(a, b, lambda x, fa=fa, fb=fb: fa(M.shift(fb(x) + [O("b2")], 0))) for a, fa in nests.items() for b, fb in nests.items() if "top" not in (a, b)]
    shapes = [(a, fa) for a, fa in nests.items()] + [(f"{a}/{b}", f) for a, b, f in two] + [("if/switch/loop/if", lambda x: nests["if"](nests["switch"](nests["loop"](nests["if"](x) + [O("b2")]) + [O("b3")]) + [O("b4")]))]
    for c in S.CURATED:
        if S.literal_for(c) is None:
            continue
        for kind in ("s", "l2"):
            v = value(kind, c)
            uses = [(n, [O("b0")] + ops + [O("b1")]) for n, ops in M.ml_uses(v)] + [(n, [O("b0")] + M.shift(ops, 1)) for n, ops in M.ml_headers(v)]
            for n, ops in uses:
                for a, f in shapes:
                    nm = f"place {S.concrete(c)!r} {kind} {n} {a}"
                    if h32(nm) % ((7 if n in ("arg", "talk") else 30) if q else 2) == 0:
                        out.append(("places", nm, mk(f(ops))))
            for a, f in shapes:
                nm = f"place {S.concrete(c)!r} {kind} menu {a}"
                if h32(nm) % (10 if q else 1) == 0:
                    out.append(("places", nm, mk(f([O("b0")] + M.shift(menu(v)([O("b5")]), 1)))))
    # numbers and constants wherever integer-likes stand
    vals = [i_(-1), i_(0), i_(32767), D.f_("1.5"), D.f_("-0.25"), D.f_("0.10"), D.f_("-12.0"), c_("$W"), c_("NAME")]
    for n, rs in list(D.opforms()) + list(D.headforms()):
        spots = [(r, k, j) for r, (_h, ops) in enumerate(rs.routines) for k, o in enumerate(ops) for j, p in enumerate(o.params) if p.norm[0] in "ic"]
        for r, k, j in spots:
            for v in vals:
                if v.norm[0] != "i" and (j in INTEGER_ONLY.get(rs.routines[r][1][k].name, ())):
                    continue
                nm = f"number {n} {r}.{k}.{j} {shown(v)}"
                if h32(nm) % (12 if q else 2):
                    continue
                rows = [(h, [O(o.name, *[v if (a, b, d) == (r, k, j) else p for d, p in enumerate(o.params)], to=o.target) for b, o in enumerate(ops)]) for a, (h, ops) in enumerate(rs.routines)]
                out.append(("places", nm, RSet(rows)))
    return out


def read_items(q):
    out = []
    ARG = [("op argument", "    ox(", ");\n", 0, (1, 0)), ("second argument", "    ox(1, ", ");\n", 1, (1, 0))]

    def put(name, lits, forms=ARG, langs=("exps", "ssbs"), size=60):
        for lang in langs:
            for fname, pre, post, idx, per in forms:
                if lang == "ssbs" and "argument" not in fname and "lang" not in fname and "coord" not in fname:
                    continue
                for k, b in enumerate(chunks(lits, size)):
                    out.append(("read", f"{name}: {fname} {k}", lang, pre, post, idx, per, b))

    NUM = ARG + [("assigned", "    $V = ", ";\n", 1, (1, 0)), ("with", "    dungeon_mode(", ") = 1;\n", 0, (1, 0))]
    ints = S.numerals(3 if q else 4)
    put("int", [(t, ("i", v)) for t, v in ints], ARG[:1] + NUM[2:])
    put("dec", [(t, ("fx", S.decimal_value(t))) for t in S.decimals()], ARG[:1] + NUM[2:])
    # strings on one line
    alpha = [S.A, "'", '"', "\\", "n", " "]
    sing = []
    for body in S.contents(4 if q else 6, alpha):
        for qt in "'\"":
            if S.single_token(body, qt) and settled(body):
                sing.append((qt + body + qt, ("s", S.read_single(body))))
    if q:
        sing = [x for x in sing if len(x[0]) <= 5 or h32(x[0]) % 4 == 0]
    TXT = ARG[:1] + [("menu", "    switch (message_SwitchMenu(1, 2)) { case menu(", "): o1(); break; }\n", 0, None)]
    TXT = ARG[:1]
    put("single", sing, TXT)
    multi = []
    for body in S.contents(4 if q else 6, [S.A, "\n", " ", "'", '"', "\\n"]):
        for qt in "'\"":
            if S.multi_token(body, qt) and not (body == "" and False):
                multi.append((qt * 3 + body + qt * 3, ("s", S.read_multi(body))))
    for lines in itertools.product(["", " ", "  ", S.A, " " + S.A, "   " + S.B, S.A + " "], repeat=4):
        b = "\n".join(lines)
        if not q or h32(b) % 4 == 0:
            multi.append(("'''" + b + "'''", ("s", S.read_multi(b))))
            multi.append(('"""' + b.replace("\n", "\\n", 1) + '"""', ("s", S.read_multi(b.replace("\n", "\\n", 1)))))
    if q:
        multi = [x for x in multi if len(x[0]) <= 9 or h32(x[0]) % 3 == 0]
    put("multi", multi, TXT)
    lang = [(t, ("l", w[1])) for t, w in sing + multi if h32(t + "l") % (12 if q else 3) == 0]
    put("single" if not lang else "multi", lang, [("lang string", "    ox({english=", "});\n", 0, (1, 0)), ("second lang string", "    ox({french='x', english=", ",});\n", 0, (1, 0))])
    # tabs as indentation
    put("tabs", [("'''\n\t\ue000\n\t\ue001\n'''", ("s", "\ue000\n\ue001")), ("'''\n  \ue000\n\t'''", ("s", "\ue000"))], TXT, size=1)
    # coordinates
    cs = ["0", "1", "-1", "12", "0x10", "0b11", "0o7", "-0x2", "007.5" if False else "7.5"] + [s + w + "." + f for s in ("", "-") for w in ("", "0", "1", "10", "010") for f in ("0", "5", "00", "50", "500", "05", "005", "25", "1", "55", "5005", "15")]
    lits = []
    for t in cs:
        v = S.coordinate(t)
        if v != "skip":
            lits.append((t, v))
    for k, (pre, post) in {"x": ("    ox(Position<'m', ", ", 3>);\n"), "y": ("    ox(Position<'m', 3, ", ">);\n")}.items():
        put("pos", [(t, None if v is None else (k, v)) for t, v in lits], [(f"coord {k}", pre, post, 0, (1, 0))])
    return out


def settled(body):
    """Only spellings whose reading the documentation settles: no backslash that is itself escaped in front of a quote or an n."""
    import re

    return re.search(r"\\\\+[n'\"]", body) is None


def main(tier):
    t0 = time.time()
    its = items(tier)
    its.sort(key=lambda it: h32(str(it[1])))
    res, skipped, lines = run_parallel(its, work, 300 if tier == "quick" else 780, Pipe)
    n, vios = summarise(res, skipped)
    ok = [t[2] for t in res if t[1] == "ok"]
    n["values_and_literals"] = sum(x[0] for x in ok)
    n["batches_with_concrete_texts"] = sum(x[1] for x in ok)
    return finish("C04", tier, "other", vios, cover(RULE, n, lines, samples=[str(it[1]) for it in its[:: max(1, len(its) // 4)]]), t0)
