"""C11: results depend only on the input."""
from __future__ import annotations

from .common import *
from .histitems import groups
from sa import hist
from sa.effects import IdModel, site as prog_site
from sa.hist import differ, run
from sa.model import Model, schemes
from sa.pipe import Result
from sa import decfam as D

RULE = ("Groups of compilations and decompilations (same paths, other contents; failing ones; some cut short by an exhausted stack) are interpreted three times: in freshly loaded modules; in freshly loaded modules in the opposite order with other set orders and "
        "reused object numbers; and once more in the same modules with one compiler object for all. Every subject must give the same ops, tables, text and source map each time, and results handed out earlier must not change. Every routine set is decompiled "
        "repeatedly from the same objects, by both decompilers and twice by one decompiler object, with the same text and map as fresh objects give, and its ops, parameters and tables are what they were.")


def classify(P, s, base, order, ids):
    """Where a difference comes from: (rule, construct)"""
    I = P.I
    P.fresh_modules()
    I.ids = None
    I.set_order = "asc"
    alone, _ = run(P, s)
    if differ(base, alone):
        return "history", None
    P.fresh_modules()
    I.set_order = order
    v, _ = run(P, s)
    if not differ(base, v):
        if ids:
            P.fresh_modules()
            I.ids = IdModel()
            I.ids.n = 10**6
            v, _ = run(P, s)
            I.ids = None
            if differ(base, v):
                return "object numbers", "id()"
        return "history", None
    sites = []

    def note():
        st = prog_site(I)
        if st not in sites:
            sites.append(st)
        return "asc"

    I.set_order = note
    run(P, s)
    for st in sites:
        for o in (order, "desc", "mix"):
            I.set_order = lambda st=st, o=o: o if prog_site(I) == st else "asc"
            v, _ = run(P, s)
            if differ(base, v):
                return "order of a set", f"{st[0]}:{st[1]}"
    return "order of a set", "several"


def same_objects(P, s):
    """One routine set, decompiled again and again."""
    I = P.I
    out = []
    fresh = {}
    for ssbs in (False, True):
        t = hist.Decompile(s.name, s.rset, s.num, ssbs)
        fresh[ssbs] = (t, run(P, t)[0])
    if fresh[False][1][0] == "raised" and fresh[True][1][0] == "raised":
        return out

    def go(fn):
        class S(hist.Subject):
            def run(self, P, env):
                return fn()

            def view(self, r):
                t, sm = r
                return (("text", hist.snap(t)), ("source map", hist.snap(sm)))

        return run(P, S(""))[0]

    # for the calls on one decompiler object
    for ssbs in (False, True):
        t, base = fresh[ssbs]
        box = {}

        def first():
            box["m"] = Model(P, s.rset, schemes()[s.num])
            box["d"] = t.make(P, box["m"])
            return tuple(I.iterate(I.call_method(box["d"], "convert", [])))

        go(first)
        d = differ(base, go(lambda: tuple(I.iterate(I.call_method(box["d"], "convert", [])))))
        if d:
            out.append(("convert twice", t.kind, f"the second convert() of one decompiler object: {d}"))
    box = {}

    def model():
        box["m"] = Model(P, s.rset, schemes()[s.num])

    P.one(model)
    m = box["m"]
    look = lambda: hist.tables(m.ops, m.infos, [hist.snap(c) for c in m.coros])
    before = look()
    for k, ssbs in enumerate((True, False, False, True)):
        t, base = fresh[ssbs]
        d = differ(base, go(lambda: tuple(I.iterate(I.call_method(t.make(P, m), "convert", [])))))
        if d:
            out.append(("same routine set", t.kind, f"decompilation number {k + 1} of one routine set: {d}"))
        d = differ(before, look())
        if d:
            out.append(("routine set changed", t.kind, f"after decompilation {k + 1} the routine set has {d}"))
            break
    return out


def work(P, it):
    if it[0] == "cli":
        return cli(P)
    I = P.I
    I.set_order, I.ids = None, None
    P.fresh_modules()
    subs = [x for x in (mk(P) for _n, mk in it[1]) if x is not None]
    v = []
    try:
        P.fresh_modules()
        I.set_order = "asc"
        base, lives = [], []
        for s in subs:
            b, l = run(P, s)
            base.append(b)
            lives.append(l)
        changed(v, subs, base, lives, "")
        bad = {}

        def passes(order, seq, envf, ids, what):
            lv = [None] * len(subs)
            for n, k in enumerate(seq):
                if n % 3 == 1:
                    run(P, subs[seq[n - 1]], depth=(12, 22, 34)[n // 3 % 3])
                r, lv[k] = run(P, subs[k], envf())
                if ids:
                    I.ids.end_of_call()
                d = differ(base[k], r)
                if d and k not in bad:
                    bad[k] = (order, d, ids, what)
            changed(v, subs, base, lv, what)

        P.fresh_modules()
        I.ids = IdModel()
        I.set_order = "desc"
        n = len(subs)
        passes("desc", list(range(n))[::-1], dict, True, "in another order of calls")
        I.ids = None
        I.set_order = "mix"
        env = {}

        def make():
            env["exps"] = I.call(P.mod("explorerscript.ssb_converting.ssb_compiler").ns["ExplorerScriptSsbCompiler"], ["$PERF", []], {})
            env["ssbs"] = I.call(P.mod("explorerscript.ssb_script.ssb_converting.ssb_compiler").ns["SsbScriptSsbCompiler"], [], {})

        P.one(make)
        passes("mix", [(k * 7 + 3) % n for k in range(n)] if n % 7 else list(range(n)), lambda: env, False, "with one compiler object")
        for k, (order, d, ids, what) in bad.items():
            rule, where = classify(P, subs[k], base[k], order, ids)
            v.append((rule, where or f"{subs[k].kind} {what}", f"[{subs[k].name}] {what}: {d}", subs[k].text()))
        P.fresh_modules()
        I.set_order = "asc"
        for s in subs:
            if isinstance(s, hist.Decompile):
                for rule, where, m in same_objects(P, s):
                    v.append((rule, where, f"[{s.name}] {m}", s.text()))
    finally:
        I.set_order, I.ids = None, None
    return ("vio", [vio(*x) for x in v]) if v else ("ok", len(subs))


def changed(v, subs, base, lives, what):
    for s, b, l in zip(subs, base, lives):
        if l is not None and b[0] != "raised":
            now = s.view(l)
            d = differ(b, now)
            if d and what != "in another order of calls" and (what == "" or hist.differ(now, b)):
                v.append(("result changed", f"{s.kind} {what}".strip(), f"[{s.name}] after later calls the result is: {d}", s.text()))


JSON = [{"type": "GENERIC", "ops": [{"opcode": "a", "params": [1]}, {"opcode": "Branch", "params": [{"type": "CONSTANT", "value": "$V"}, 1, 1]}, {"opcode": "Return", "params": []}]},
        {"type": "COROUTINE", "name": "N", "ops": [{"opcode": "b", "params": [{"type": "CONST_STRING", "value": "x"}]}, {"opcode": "Jump", "params": [4]}]},
        {"type": "ACTOR", "target_id": 3, "ops": [{"opcode": "End", "params": []}]}]


def cli(P):
    """The readers of the command line module, used twice in one process."""
    I = P.I
    P.fresh_modules()

    def go():
        m = P.mod("explorerscript.cli.decompile").ns
        out = []
        for _ in range(2):
            i, c, o = I.iterate(I.call(m["read_routines"], [[dict(x) for x in JSON]], {}))
            out.append((infos_(i), hist.snap(c), hist.ops_snap(o)))
        return out

    def infos_(i):
        return hist.infos_snap(i)

    r = P.one(go)
    if isinstance(r, Result):
        return ("vio", [vio("raises", "cli.decompile.read_routines", hist.D.fail(r), "")])
    if r[0] != r[1]:
        return ("vio", [vio("history", "cli.decompile.read_routines", f"the second call with the same model gives other routines: {hist.first_diff(r[0], r[1])}", repr(JSON))])
    return ("ok", 1)


def main(tier):
    t0 = time.time()
    its = [("cli",)] + [("group", g) for g in groups(tier, 14, "c11" + ("" if tier == "quick" else "t"))][:: 3 if tier == "quick" else 1]
    res, skipped, lines = run_parallel(its, work, 240 if tier == "quick" else 720, Pipe)
    n, vios = summarise(res, skipped, what="groups")
    n["subjects"] = sum(t[2] for t in res if t[1] == "ok")
    return finish("C11", tier, "other", vios, cover(RULE, n, lines, samples=[f"{m[0]}" for it in its[1:4] for m in it[1][:2]]), t0)
