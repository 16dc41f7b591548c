"""C14: source maps survive storage and offset rewriting."""
from __future__ import annotations

from .common import *
from sa import forms, macrofam
from sa.engine import Obj
from sa.pipe import Result
from sa.project import as_project
from sa.values import Atom, AStr, SInt

RULE = ("(a) loads(dumps) algebra: for every shape of the four tables, with unknown positions, offsets, names, texts and marks, deserialize(serialize(m)) == m in every field and by the program's own ==, and serialises to the same text. "
        "(b) rewrite_offsets: for every combination of present, mapped and dropped offsets of a window at an unknown base, with old and new offsets in the same or in a different range, every entry, return address and mark is where the rule puts it. "
        "(c) The same for the source maps the compiler builds for the macro and statement schemata.")

MOD = "explorerscript.source_map"


class Mk:
    """Builds maps from plain descriptions (lists of field values)."""

    def __init__(self, P):
        self.I = P.I
        self.ns = P.mod(MOD).ns

    def build(self, d):
        I, ns = self.I, self.ns
        pm = lambda v: I.call(ns["SourceMapPositionMark"], list(v), {})
        return I.call(
            ns["SourceMap"],
            [{k: I.call(ns["SourceMapping"], list(v), {}) for k, v in d["map"]}, [pm(v) for v in d["marks"]],
             {k: I.call(ns["MacroSourceMapping"], list(v[:6]) + [dict(v[6])], {}) for k, v in d["macros"]}, [(f, n, pm(v)) for f, n, v in d["mmarks"]]],
            {},
        )

    def views(self, v):
        I = self.I
        if v is None or not isinstance(v, Obj):
            return v
        g = lambda n: I.getattr(v, n)
        if v.cls.name == "SourceMapPositionMark":
            return ("mark",) + tuple(g(n) for n in ("line_number", "column_number", "end_line_number", "end_column_number", "name", "x_offset", "y_offset", "x_relative", "y_relative"))
        if any(c.name == "MacroSourceMapping" for c in v.cls.mro):
            ci = g("called_in")
            pmap = g("parameter_mapping")
            return ("macro", g("relpath_included_file"), g("macro_name"), g("line"), g("column"), None if ci is None else tuple(I.iterate(ci)), type(ci), g("return_addr"), dict(pmap))
        return ("op", g("line"), g("column"))

    def read(self, m):
        """Everything a map shows through its public interface."""
        I = self.I
        it = lambda n: [tuple(I.iterate(t)) for t in I.iterate(I.call_method(m, n, []))]
        ent = [(k, self.views(v)) for k, v in it("__iter__")]
        mac = [(k, self.views(v)) for k, v in it("collect_mappings__macros")]
        marks = [self.views(v) for v in I.iterate(I.call_method(m, "get_position_marks__direct", []))]
        mm = [(a, b, self.views(v)) for a, b, v in (tuple(I.iterate(t)) for t in I.iterate(I.call_method(m, "get_position_marks__macros", [])))]
        return {"entries": ent, "macros": mac, "marks": marks, "mmarks": mm}


def ident(a, b):
    """Identical values (no comparison of the program is used, no question is asked)."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(ident(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(ident(x, y) and ident(a[x], b[y]) for x, y in zip(a, b))
    if isinstance(a, (AStr, SInt)) or isinstance(b, (AStr, SInt)):
        return type(a) is type(b) and repr(a) == repr(b)
    if isinstance(a, type) or isinstance(b, type):
        return a is b
    return type(a) is type(b) and a == b


def as_table(x):
    """Entries as offset -> value; the order of a map's entries has no meaning."""
    return sorted(((repr(k), k, v) for k, v in x), key=lambda t: t[0])


def diff(a, b):
    for n in ("entries", "macros"):
        x, y = as_table(a[n]), as_table(b[n])
        kx, ky = [t[0] for t in x], [t[0] for t in y]
        if kx != ky:
            return n, f"offsets {ky} instead of {kx}"
        for (r, k1, v1), (_r, k2, v2) in zip(x, y):
            if type(k1) is not type(k2) or not ident(v1, v2):
                return n, f"entry {r}: {v2} ({type(k2).__name__}) instead of {v1} ({type(k1).__name__})"
    for n in ("marks", "mmarks"):
        if not ident(a[n], b[n]):
            return n, f"{b[n]} instead of {a[n]}"
    return None


V = SInt.var
A = lambda n: mkstr([Atom(n)])


def mark(i):
    return [V(f"ln{i}"), V(f"co{i}"), V(f"el{i}"), V(f"ec{i}"), A(f"mark{i}"), V(f"xo{i}"), V(f"yo{i}"), V(f"xr{i}"), V(f"yr{i}")]


def mac_entry(i, f, ci, ret, pm):
    called = {"none": None, "same": (None, V(f"cl{i}"), V(f"cc{i}")), "file": (A(f"cf{i}"), V(f"cl{i}"), V(f"cc{i}"))}[ci]
    file = {"none": None, "file": A(f"f{i}"), "empty": ""}[f]
    r = {"none": None, "zero": 0, "var": V(f"ret{i}")}[ret]
    p = {"": {}, "s": {A(f"p{i}"): A(f"v{i}")}, "i": {A(f"p{i}"): V(f"v{i}")}, "si": {A(f"p{i}"): A(f"v{i}"), A(f"q{i}"): V(f"w{i}")}, "e": {A(f"p{i}"): ""}, "z": {A(f"p{i}"): 0}}[pm]
    return [file, A(f"m{i}"), V(f"ml{i}"), V(f"mc{i}"), called, r, p]


def store_items(tier):
    for n in range(3):
        for k in range(3):
            for m in range(3):
                for j in range(3):
                    yield {"map": [(V("k") + 2 * i, [V(f"l{i}"), V(f"c{i}")]) for i in range(n)], "marks": [mark(i) for i in range(k)],
                           "macros": [(V("k") + 2 * i + 1, mac_entry(i, ("none", "file")[i % 2], ("same", "none")[i % 2], "var", ("s", "i")[i % 2])) for i in range(m)],
                           "mmarks": [([None, A(f"mf{i}"), ""][i % 3], A(f"mm{i}"), mark(f"m{i}")) for i in range(j)]}
    for f in ("none", "file", "empty"):
        for ci in ("none", "same", "file"):
            for ret in ("none", "zero", "var"):
                for pm in ("", "s", "i", "si", "e", "z"):
                    for off in (0, V("k0") + 1):
                        yield {"map": [(V("k0"), [0, 0])], "marks": [], "macros": [(off, mac_entry(0, f, ci, ret, pm))], "mmarks": [([None, A("mf")][pm == "s"], A("mm"), mark("m"))] if ci == "same" else []}
    for f in ("none", "file", "empty"):
        yield {"map": [(0, [V("l"), 0]), (V("k") + 1, [0, V("c")])], "marks": [mark(0), [0] * 4 + [""] + [0] * 4], "macros": [(V("k") + 2, mac_entry(0, f, "same", "zero", ""))], "mmarks": [(None, "", mark(2)), ({"none": None, "file": A("q"), "empty": ""}[f], A("z"), [0] * 4 + ["x"] + [2, 4, V("a"), 0])]}


def rewrite_cases(tier):
    """(offsets with entries [(k, kind, ret)], kept offsets, numbering)"""
    q = tier == "quick"
    W = 6
    nums = ("other", "same", "spread", "down", "swap", "shift")
    # one macro entry with every return address against every kept subset
    for bits in range(1 << W):
        kept = [i for i in range(W) if bits >> i & 1]
        for at in (0, 2):
            for ret in (None,) + tuple(range(W + 2)):
                for num in nums:
                    for base in (0, 1):
                        if h32(f"{bits}{at}{ret}{num}{base}") % (7 if q else 1):
                            continue
                        yield ([(at, "m", ret), (at + 1, "d", None)], kept, num, base)
    # several entries: mixed kinds and return addresses
    rng = 2000 if q else 6000
    for s in range(rng):
        h = lambda t: h32(f"{s}:{t}")
        ents = []
        for k in range(W):
            c = h(f"k{k}") % 4
            if c == 1:
                ents.append((k, "d", None))
            elif c > 1:
                r = h(f"r{k}") % (W + 3)
                ents.append((k, "m", None if r == W + 2 else r))
        kept = [i for i in range(W) if h(f"t{i}") % 3]
        yield (ents, kept, nums[h("n") % len(nums)], h("b") % 2)


def numbering(num, kept, base):
    """old offset -> new offset. Old offsets are base, base+1, ...; base is 0 or an unknown number."""
    o = (lambda k: k) if base == 0 else (lambda k: V("b") + k)
    m = {}
    for r, k in enumerate(kept):
        if num == "other":
            v = (V("b") + 100 if base else V("n") + 100) + r
        elif num == "same":
            v = o(r)
        elif num == "spread":
            v = o(3 * r + 1)
        elif num == "down":
            v = o(len(kept) - 1 - r)
        elif num == "shift":
            v = o(k + 1)
        else:
            v = o(kept[r ^ 1] if (r ^ 1) < len(kept) else k)
        m[o(k)] = v
    return o, m


def rewrite_desc(case):
    ents, kept, num, base = case
    o, m = numbering(num, kept, base)
    d = {"map": [], "marks": [mark(0)], "macros": [], "mmarks": [(None, A("mm"), mark("m"))]}
    exp = {"map": [], "macros": []}
    for k, kind, ret in ents:
        if kind == "d":
            e = [V(f"l{k}"), V(f"c{k}")]
            d["map"].append((o(k), e))
            if k in kept:
                exp["map"].append((m[o(k)], e))
        else:
            e = mac_entry(k, ("none", "file")[k % 2], ("same", "none", "file")[k % 3], "none", "s")
            e[5] = None if ret is None else o(ret)
            d["macros"].append((o(k), e))
            if k in kept:
                x = list(e)
                if ret is not None:
                    nx = [i for i in kept if i >= ret]
                    x[5] = m[o(nx[0])] if nx else "any"
                exp["macros"].append((m[o(k)], x))
    return d, m, exp


def check_rewrite(M, P, sm, before, m, exp_of, schema, name, v, twice=False):
    """Apply the mapping to sm and compare with the expectation."""
    I = P.I
    r = P.one(lambda: (I.call_method(sm, "rewrite_offsets", [dict(m)]), M.read(sm))[1])
    if isinstance(r, Result):
        v.append(vio("rewrite: exception", r.name, f"[{name}] {fail_text(r)}", schema))
        return None
    for n in ("entries", "macros"):
        got = {repr(k): (k, x) for k, x in r[n]}
        exp = {}
        for k, x in before[n]:
            if k in m:
                exp[repr(m[k])] = (m[k], x)
        if set(got) != set(exp) or len(got) != len(r[n]):
            v.append(vio("rewrite: entries", "SourceMap.rewrite_offsets", f"[{name}] {n}: offsets {sorted(got)} instead of {sorted(exp)}", schema))
            return None
        for k in exp:
            a, b = list(exp[k][1]), list(got[k][1])
            if a[0] == "macro":
                ra, rb = a.pop(7), b.pop(7)
                want = exp_of(ra)
                if want != "any" and not ident(want, rb):
                    v.append(vio("rewrite: return address", "SourceMap.rewrite_offsets", f"[{name}] return address {ra} becomes {rb} instead of {want}", schema))
                    return None
            if not ident(a, b):
                v.append(vio("rewrite: contents", "SourceMap.rewrite_offsets", f"[{name}] entry {k}: {b} instead of {a}", schema))
                return None
    for n in ("marks", "mmarks"):
        if not ident(before[n], r[n]):
            v.append(vio("rewrite: position marks", "SourceMap.rewrite_offsets", f"[{name}] {r[n]} instead of {before[n]}", schema))
            return None
    return r


def check_store(M, P, sm, before, schema, name, v):
    I = P.I
    cls = M.ns["SourceMap"]
    for pretty in (None, False, True):
        a = [] if pretty is None else [pretty]

        def go():
            t = I.call_method(sm, "serialize", list(a))
            r = I.call(I.getattr(cls, "deserialize"), [t], {})
            eq = I.truth(I.eq(sm, r))
            t2 = I.call_method(r, "serialize", list(a))
            return t, M.read(r), eq, t2, M.read(sm)

        r = P.one(go)
        if isinstance(r, Result):
            v.append(vio("storage: exception", r.name, f"[{name}] {fail_text(r)}", schema))
            return
        t, got, eq, t2, after = r
        d = diff(before, got)
        if d:
            v.append(vio("storage: table " + d[0], "SourceMap.serialize/deserialize", f"[{name}] {d[1]}", schema))
            return
        if diff(before, after):
            v.append(vio("storage: original changed", "SourceMap.serialize", f"[{name}] {diff(before, after)[1]}", schema))
            return
        if not eq:
            v.append(vio("storage: equality", "SourceMap.__eq__", f"[{name}] the map read back does not compare equal", schema))
            return
        if not (t == t2):
            v.append(vio("storage: text", "SourceMap.serialize", f"[{name}] serialising again gives {t2} instead of {t}", schema))
            return


def items(tier):
    out = [("store", d) for d in store_items(tier)]
    out += [("rewrite", c) for c in rewrite_cases(tier)]
    q = tier == "quick"
    for n, b in macrofam.programs(tier):
        if h32(n) % (2 if q else 1) == 0:
            out.append(("compiled", n, b))
    for n, b in forms.programs():
        if h32(n) % (2 if q else 1) == 0:
            out.append(("compiled", n, b))
    return out


def next_of(m):
    """return address rule for a mapping with ordered old offsets"""
    def f(ra):
        if ra is None:
            return None
        best = None
        for k in m:
            d = k - ra
            if isinstance(d, int) and d >= 0 and (best is None or d < best[0]):
                best = (d, m[k])
        return best[1] if best else "any"

    return f


def work(P, it):
    M = Mk(P)
    v = []
    if it[0] == "store":
        d = it[1]


        # every answer to every question the code asks about the unknown values
        def body():
            sm = M.build(d)
            return sm, M.read(sm)

        outs = explore(P, M, body, lambda sm, before: check_store(M, P, sm, before, repr(d), "store", v))
        return ("vio", v) if v else ("ok", f"stored ({outs} cases)")
    if it[0] == "rewrite":
        d, m, _e = rewrite_desc(it[1])
        outs = explore(P, M, lambda: (lambda sm: (sm, M.read(sm)))(M.build(d)), lambda sm, before: check_rewrite(M, P, sm, before, m, next_of(m), f"{d}\nmapping {m}", f"{it[1]}", v))
        return ("vio", v) if v else ("ok", f"rewritten ({outs} cases)")
    _k, name, b = it
    pr = as_project(b(fam.G(True)))
    r = pr.compile(P)
    if not r.ok:
        return ("ok", "not compiled")
    sm = r.sm
    before = M.read(sm)
    check_store(M, P, sm, before, pr.text(), name, v)
    if v:
        return ("vio", v)
    offs = [o.d["offset"] for rt_ in r.ops for o in rt_]
    m = {o: i for i, o in enumerate(offs)}
    r1 = check_rewrite(M, P, sm, before, m, next_of(m), pr.text(), name, v)
    if r1 and not v:
        check_store(M, P, sm, r1, pr.text(), name + " rewritten", v)
        n = len(offs)
        m2 = {i: V("n") + (1000 + i) for i in range(n) if h32(f"{name}{i}") % 3}
        if not v:
            check_rewrite(M, P, sm, r1, m2, next_of(m2), pr.text(), name + " rewritten twice", v)
    return ("vio", v) if v else ("ok", "compiled map stored and rewritten")


def explore(P, M, body, check):
    """Runs build+check for every resolution of the questions asked about unknown integers (offsets are not negative)."""
    from sa.interp import Explorer
    from sa.values import Ctl

    ex = Explorer(max_traces=256, max_choices=40)
    ex.bounds = NonNeg()
    n = 0
    one = P.one

    for _b, o in ex.run(None):
        P.I.steps = 0
        P.I.depth = 0
        Ctl.interp = P.I
        P.one = lambda fn: nested(P, fn)
        try:
            sm, before = body()
            check(sm, before)
        finally:
            P.one = one
        n += 1
    if ex.cut:
        raise Undecided("too many questions about the stored values")
    return n


def nested(P, fn):
    from sa.engine import PyExc, exc_name, exc_text

    try:
        return fn()
    except PyExc as e:
        r = Result()
        r.exc, r.name, r.text, r.trace = e, exc_name(e.value), exc_text(e.value), e.trace
        return r


class NonNeg:
    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return (0, None)


def main(tier):
    t0 = time.time()
    its = items(tier)
    res, skipped, lines = run_parallel(its, work, 240 if tier == "quick" else 780, Pipe)
    n, vios = summarise(res, skipped)
    by = {}
    for t in res:
        if t[1] == "ok":
            k = f"{its[t[0]][0]}: {t[2]}"
            by[k] = by.get(k, 0) + 1
    n["outcomes"] = dict(sorted(by.items(), key=lambda x: -x[1])[:12])
    return finish("C14", tier, "other", vios, cover(RULE, n, lines, samples=[str(its[i])[:200] for i in range(0, len(its), max(1, len(its) // 3))][:3]), t0)
