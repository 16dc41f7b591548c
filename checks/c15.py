"""C15: the compile CLI prints what the decompile CLI (and the docs) expect."""
from __future__ import annotations

from .common import *
from sa import forms, macrofam
from sa.engine import Cls, Native, Obj, PyExc
from sa.pipe import DECOMPILER, Result
from sa.project import Project, as_project
from sa.pymodel import json_loads
from sa.values import AStr, Atom, SInt, parts_of

RULE = ("Both command line modules are interpreted as `python -m` runs them. (a) Every schema: stdout of the compile command is one JSON document of the documented structure with the ops, parameters, routine types, names and targets of the compiled program, "
        "jump parameters are the 1-based position of the target op; it exits with 0 exactly when the compiler accepts the source. (b) That document, given to the decompile command, hands the decompiler the same routines, coroutines, settings and ops with offset = position. "
        "(c) Every documented routine type, target and argument type is accepted and read as documented. (d) Every way to fail (files, settings, malformed models, decompiler or compiler exceptions) exits non-zero.")

CC, DC = "explorerscript.cli.compile", "explorerscript.cli.decompile"
DM = [("open", "OPENED"), ("closed", "SHUT"), ("request", "ASKED"), ("open_request", "OPEN_ASKED")]
SETTINGS = {"performance_progress_list_var_name": "$PERF", "dungeon_mode_constants": dict(DM)}
import json as _json

OK_SET = {"settings": SETTINGS}


class Env:
    def __init__(self, P):
        self.P = P
        self.I = P.I
        self.rec = None
        self.mode = None
        real = P.mod(DECOMPILER).ns["ExplorerScriptSsbDecompiler"]
        self.real = real
        c = Cls("ExplorerScriptSsbDecompiler", [real], {})
        names = ("routine_infos", "routine_ops", "named_coroutines", "performance_progress_list_var_name", "dungeon_mode_constants")

        def init(o, *a, **k):
            d = dict(zip(names, a))
            d.update(k)
            if set(d) != set(names) or len(a) > len(names):
                raise PyExc(TypeError("wrong arguments of the decompiler"))
            self.rec = d
            self.calls = 0

        def convert(o):
            self.calls += 1
            if isinstance(self.mode, BaseException):
                raise PyExc(self.mode)
            d = self.rec
            if isinstance(self.mode, str) and self.mode == "real":
                r = self.I.call(real, [d[n] for n in names], {})
                return self.I.call_method(r, "convert", [])
            sm = self.I.call(self.P.mod("explorerscript.source_map").ns["SourceMapBuilder"], [], {})
            self.I.call_method(sm, "add_opcode", [1, 2, 3])
            return self.mode, self.I.call_method(sm, "build", [])

        c.ns["__init__"] = Native(init)
        c.ns["convert"] = Native(convert)
        P.mod(DECOMPILER).ns["ExplorerScriptSsbDecompiler"] = c

    def run(self, mod, argv, fs, cwd="/w", mode="TEXT"):
        """-> (status, stdout, Result | None)"""
        I, P = self.I, self.P
        self.rec, self.mode, self.calls = None, mode, 0

        def go():
            I.fs = dict(fs)
            I.links = {}
            I.cwd = cwd
            I.written.clear()
            I.out, I.err = [], []
            I.run_main(mod, argv)
            return 0

        r = P.one(go)
        out = mkstr([p for t in I.out for p in parts_of(t)])
        if isinstance(r, Result):
            v = r.exc.value
            if isinstance(v, SystemExit):
                c = v.code
                if isinstance(c, (AStr, str)):
                    c = 1
                return (0 if c is None else c), out, r
            return 1, out, r
        return 0, out, None


def coord_of(v):
    """tile number and half flag of a JSON coordinate, None when it is no coordinate"""
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, SInt)):
        return v, False
    if isinstance(v, float):
        v = repr(v)
    if isinstance(v, str):
        w, _, f = v.partition(".")
        if f not in ("", "0", "5"):
            return None
        try:
            return int(w), f == "5"
        except ValueError:
            return None
    return None


def json_param(p):
    """normal form of a JSON argument"""
    if isinstance(p, bool):
        return None
    if isinstance(p, (int, SInt)):
        return ("i", p)
    if not isinstance(p, dict) or set(p) != {"type", "value"}:
        return None
    t, v = p["type"], p["value"]
    if t == "CONSTANT":
        return ("c", v)
    if t == "CONST_STRING":
        return ("s", v)
    if t == "FIXED_POINT":
        return ("fx", v)
    if t == "LANG_STRING":
        return ("l", tuple(sorted(v.items()))) if isinstance(v, dict) else None
    if t == "POSITION_MARK":
        if not isinstance(v, dict) or set(v) != {"name", "x", "y"}:
            return None
        x, y = coord_of(v["x"]), coord_of(v["y"])
        if x is None or y is None:
            return None
        return ("p", v["name"], x[0], y[0], 2 if x[1] else 0, 2 if y[1] else 0)
    return None


KINDS = ("COROUTINE", "GENERIC", "ACTOR", "OBJECT", "PERFORMER")


def read_doc(d):
    """The documented reading of a JSON model. -> [(type, name | target | None, [(opcode, params)])] or an error text"""
    if not isinstance(d, dict) or set(d) != {"settings", "routines"} or not isinstance(d["routines"], list):
        return "the document has no 'settings' and 'routines'"
    rows = []
    for i, r in enumerate(d["routines"]):
        if not isinstance(r, dict) or r.get("type") not in KINDS or not isinstance(r.get("ops"), list):
            return f"routine {i} has no valid type and ops"
        k = r["type"]
        want = {"type", "ops"} | ({"name"} if k == "COROUTINE" else {"target_id"} if k != "GENERIC" else set())
        if set(r) != want:
            return f"routine {i} ({k}) has the fields {sorted(r)}"
        x = r.get("name") if k == "COROUTINE" else r.get("target_id")
        if k == "COROUTINE" and not isinstance(x, (str, AStr)):
            return f"the name of coroutine {i} is {x!r}"
        if k in KINDS[2:] and (isinstance(x, bool) or not isinstance(x, (int, SInt, str, AStr))):
            return f"the target of routine {i} is {x!r}"
        ops = []
        for o in r["ops"]:
            if not isinstance(o, dict) or set(o) != {"opcode", "params"} or not isinstance(o["params"], list) or not isinstance(o["opcode"], (str, AStr)):
                return f"an operation of routine {i} is {str(o)[:80]}"
            ps = [json_param(p) for p in o["params"]]
            if None in ps:
                return f"an argument of {o['opcode']} of routine {i} is {o['params'][ps.index(None)]!r}"
            ops.append((o["opcode"], ps))
        rows.append((k, x, ops))
    return rows


def expected(r):
    """What the compiled program is, in the form of read_doc."""
    pos = {}
    n = 0
    for row in r.ops:
        for o in row:
            n += 1
            pos[o.d["offset"]] = n
    rows = []
    for inf, nm, row in zip(r.infos, r.named, r.ops):
        k, lt, ln = info_norm(inf)
        x = nm if k == "COROUTINE" else None if k == "GENERIC" else lt if ln is None else ln
        ops = []
        for o in row:
            ps = [norm_param(p) for p in o.d["params"]]
            on = o.d["op_code"].d["name"]
            if isinstance(on, str) and on in JUMPS:
                ps[-1] = ("i", pos[ps[-1][1]])
            ops.append((on, ps))
        rows.append((k, x, ops))
    return rows


def cmp_rows(exp, got, what):
    if len(exp) != len(got):
        return "routines", f"{len(exp)} routines expected, {what} has {len(got)}"
    for i, ((k, x, ops), (k2, x2, ops2)) in enumerate(zip(exp, got)):
        if k != k2:
            return "routine type", f"routine {i} is {k}, {what} has {k2}"
        if not same((x,), (x2,)):
            return "coroutine name" if k == "COROUTINE" else "routine target", f"routine {i} ({k}): {x!r} expected, {what} has {x2!r}"
        if len(ops) != len(ops2):
            return "ops", f"routine {i}: {len(ops)} ops expected, {what} has {len(ops2)}"
        for j, ((n, ps), (n2, ps2)) in enumerate(zip(ops, ops2)):
            if not same(n, n2):
                return "opcode", f"op {j} of routine {i}: {n} expected, {what} has {n2}"
            if not same(tuple(ps), tuple(ps2)):
                return ("jump parameter" if isinstance(n, str) and n in JUMPS and same(tuple(ps[:-1]), tuple(ps2[:-1])) else "argument"), f"op {j} ({n}) of routine {i}: {ps} expected, {what} has {ps2}"
    return None


def cmp_rec(E, rows, set_, bad):
    """The arguments the decompiler was given against the documented reading of the model."""
    I = E.I
    d = E.rec
    g = I.getattr
    got = []
    infos = list(I.iterate(d["routine_infos"]))
    opss = [list(I.iterate(x)) for x in I.iterate(d["routine_ops"])]
    if len(infos) != len(opss):
        return bad("model reading: routines", f"{len(infos)} routine infos and {len(opss)} op lists")
    coros = [(g(c, "id"), g(c, "name")) for c in I.iterate(d["named_coroutines"])]
    n = 0
    for i, (inf, ops) in enumerate(zip(infos, opss)):
        k, lt, ln = info_norm(inf)
        x = None if k == "GENERIC" else lt if ln is None else ln
        if k == "COROUTINE":
            cs = [nm for c, nm in coros if c == i]
            x = cs[0] if len(cs) == 1 else ("no entry" if not cs else "several entries")
        row = []
        for o in ops:
            n += 1
            if o.d["offset"] != n:
                return bad("model reading: offsets", f"the {n}. op has the offset {o.d['offset']}")
            row.append((o.d["op_code"].d["name"], [norm_param(p) for p in o.d["params"]]))
        got.append((k, x, row))
    c = cmp_rows(rows, got, "the decompiler's input")
    if c:
        return bad("model reading: " + c[0], c[1])
    if any(not (0 <= c < len(infos)) or infos[c].d["type"].d["name"] != "COROUTINE" for c, _ in coros):
        return bad("model reading: coroutine name", f"the coroutine entries {coros} include routines that are none")
    if d["performance_progress_list_var_name"] != set_["performance_progress_list_var_name"]:
        return bad("model reading: settings", f"performance variable {d['performance_progress_list_var_name']!r}")
    dm = d["dungeon_mode_constants"]
    for f, a in (("open", "open_constant"), ("closed", "close_constant"), ("request", "request_constant"), ("open_request", "open_and_request_constant")):
        v = g(dm, a)
        if v != set_["dungeon_mode_constants"][f]:
            return bad("model reading: settings", f"dungeon mode constant {f}: {v!r}")
    return None


# ---------------------------------------------------------------------------------------------------------- (a), (b)


def own_programs():
    kinds = ("actor", "object", "performer")
    tg = [("i", lambda g: vi(3)), ("0", lambda g: vi(0)), ("n", lambda g: vi(-1)), ("c", lambda g: g.c()), ("v", lambda g: g.var())]
    for k in kinds:
        for nm, t in tg:
            for st in (0, 2):
                yield f"cli:target {k} {nm}{st}", lambda g, k=k, t=t, st=st: Program([rt(0, [g.op(), kw("end")]), rt_for(1, k, t(g), [If([(False, [g.cond()], [g.op()])], [g.op()]), kw("end")], st), rt(2, [Forever([g.op(), If([(False, [g.cond()], [BreakLoop()])])]), kw("return")])])
    for n in range(1, 5):
        def jumps(g, n=n):
            labs = [g.lab() for _ in range(n)]
            its = []
            for i in range(n):
                nxt, prv = labs[(i + 1) % n], labs[i - 1]
                body = [g.op() for _ in range(i)] + [Label(labs[i]), g.op(), Call(prv), If([(False, [g.cond()], [Jump(nxt)])]), Switch(h_var(g.var()), [(g.case(), [g.op(), Break()]), (g.case(), [Jump(prv)]), (None, [g.op()])]), kw("hold")]
                its.append(rt(i, body))
            return Program(its)

        yield f"cli:jumps {n}", jumps
        yield f"cli:aliases {n}", lambda g, n=n: Program([rt(0, [g.op(), kw("end")])] + [rt(i, None, alias=True) for i in range(1, n)] + [rt(n, [If([(True, [g.cond()], [g.op()])]), kw("end")])])
        yield f"cli:coros {n}", lambda g, n=n: Program([coro(g.name("N"), [If([(False, [g.cond()], [g.op()])]), kw("return")] if i % 2 else None, alias=i % 2 == 0 and i > 0) if i else coro(g.name("N"), [g.op(), kw("return")]) for i in range(n)])
        yield f"cli:mixed coros {n}", lambda g, n=n: Program([rt(0, [g.op(), kw("end")])] + [coro(g.name("N"), [If([(False, [g.cond()], [g.op()])]), kw("return")]) for i in range(n)] + [rt_for(n + 1, "object", g.c(), [While(False, g.cond(), [g.op()]), kw("hold")])])

    def drops(g):
        m = Macro("m", ["$a"], [Simple(lambda: T("use", "(", "$a", ")", ";"), [("use", [])], "op")])
        return None

    def macros(g):
        c = g.c()
        inner = Macro("inner", ["%a"], [If([(False, [g.cond()], [kw("return")])]), op("x", vc("%a"))])
        outer = Macro("outer", ["%a", "%b"], [MacroCall("inner", [vc("%b")]), op("y", vc("%a")), MacroCall("inner", [vc("%a")])])
        return Program([inner, outer, rt(0, [MacroCall("outer", [vi(1), c]), g.op(), MacroCall("outer", [vs("t"), vi(2)]), kw("end")]), rt(1, [MacroCall("inner", [c]), kw("hold")])])

    yield "cli:macros", macros

    def imports(style):
        def b(g):
            lib = Program([Macro("a", [], [g.op()])])
            lib2 = Program([Macro("b", [], [If([(False, [g.cond()], [g.op()])]), g.op()])])
            main = Program([rt(0, [MacroCall("a"), MacroCall("b"), kw("end")])], [Import("lib1.exps"), Import("lib2.exps")])
            return Project(main, {"/w/p/one/lib1.exps": lib, "/w/p/two/lib2.exps": lib2}, ["/w/p/one", "/w/p/two"], "/w/src/main.exps")

        return b

    for st in ("rep", "list", "eq", "before", "dots", "abs"):
        yield f"cli:lookup {st}", imports(st)

    def first(g):
        l1, l2 = Program([Macro("a", [], [op("good")])]), Program([Macro("a", [], [op("bad")])])
        return Project(Program([rt(0, [MacroCall("a"), kw("end")])], [Import("lib.exps")]), {"/w/p/one/lib.exps": l1}, ["/w/p/one", "/w/p/two"], "/w/src/main.exps", extra_fs={"/w/p/two/lib.exps": "macro a() { bad(); }\n"})

    yield "cli:lookup order", first
    yield "cli:empty", lambda g: Program([])
    for nm, src in (("syntax", "def 0 { op( }"), ("label", "def 0 { jump @x; }"), ("break", "def 0 { break; }"), ("ids", "def 1 { op(); }"), ("routines in import", 'import "./lib.exps";\ndef 0 { op(); }'),
                    ("missing import", 'import "./nope.exps";\ndef 0 { op(); }'), ("macro", "def 0 { ~nope(); }"), ("recursive", "macro a() { ~a(); }\ndef 0 { ~a(); }"), ("default", "def 0 { switch ($x) { default: a(); default: b(); } }"),
                    ("lexer", "def 0 { op('a; }"), ("bit", "def 0 { if (not $x[1]) { op(); } }")):
        yield f"cli:reject {nm}", src


def argv_of(nm, pr, q):
    look = list(pr.lookup or [])
    rel = lambda p: p[3:] if p.startswith("/w/") else p
    a = [pr.path if q % 2 else rel(pr.path), "--settings", "set.json" if q % 3 else "/w/set.json"]
    st = nm.split(" ")[-1]
    if not look:
        return a
    if st == "list":
        return a + ["--lookup"] + [rel(l) for l in look]
    if st == "eq":
        return a + [f"--lookup={rel(l)}" for l in look]
    if st == "before":
        return ["--lookup", look[0]] + ["--lookup"] + [rel(l) for l in look[1:]] + a[1:] + ["--", a[0]] if False else ["--settings", "set.json", a[0], "--lookup", look[0]] + sum((["--lookup", rel(l)] for l in look[1:]), [])
    if st == "dots":
        return a + sum((["--lookup", "x/../" + rel(l) if l.startswith("/w/") else l] for l in look), [])
    if st == "abs":
        return a + sum((["--lookup", l] for l in look), [])
    return a + sum((["--lookup", rel(l)] for l in look), [])


def do_program(E, it):
    _k, name, b = it
    P = E.P
    if isinstance(b, str):
        main, fs0 = b, {"/w/src/lib.exps": "def 0 { op(); }\n"}
        r = P.compile(main, "/w/src/main.exps", fs0)
        path, txt = "/w/src/main.exps", main
        pr = Project(Program([]), path=path)
        fs = dict(fs0)
        fs[path] = main
    else:
        pr = as_project(build_control(b[1]) if isinstance(b, tuple) else b(fam.G(True)))
        r = pr.compile(P)
        txt = pr.text()
        fs = dict(pr.fs())
        fs[pr.path] = pr.src[pr.path]
    if name.startswith("cli:lookup dots"):
        fs["/w/x/k"] = ""
    q = h32(name)
    fs["/w/set.json"] = _json.dumps(OK_SET)
    argv = argv_of(name, pr, q)
    bad = []

    def err(rule, msg, con):
        bad.append(vio(rule, con, f"[{name}] {msg}", txt + "\n// arguments: " + " ".join(argv)))

    sm = q % 5 == 0
    if sm:
        argv = argv + ["--source-map", "out.sm"]
    st, out, res = E.run(CC, argv, fs)
    if not r.ok:
        if st == 0:
            err("exit status", f"the compiler rejects the source ({r.name}: {r.text}), the command exits with 0", "cli/compile.py")
        return bad
    if st != 0:
        err("exit status", f"the compiler accepts the source, the command exits with {st}: {fail_text(res) if res else ''}", fail_site(res) if res else "cli/compile.py")
        return bad
    try:
        doc = json_loads(E.I, out)
    except (ValueError, Undecided) as e:
        plain = rep_text(out)
        if isinstance(e, Undecided) and all(isinstance(p, Atom) and p.kind == "json" or isinstance(p, str) and not p.strip() for p in parts_of(out)):
            raise
        err("output", f"stdout is no single JSON document: {plain[:200]!r}", "cli/compile.py")
        return bad
    rows = read_doc(doc)
    if isinstance(rows, str):
        err("output: structure", rows, "cli/compile.py")
        return bad
    if doc["settings"] != SETTINGS:
        err("output: settings", f"the settings are printed as {doc['settings']}", "cli/compile.py")
    exp = expected(r)
    c = cmp_rows(exp, rows, "the output")
    if c:
        err("output: " + c[0], c[1], "cli/compile.py")
        return bad
    if sm:
        f = E.I.written.get("/w/out.sm")
        if f is None or f == "":
            err("source map file", "no source map was written to the place given with --source-map", "cli/compile.py")
    # (b)
    txtatom = AStr((Atom("decompiled", "text", False),))
    da = ["/w/doc.json" if q % 2 else "doc.json"]
    if sm:
        da += ["--source-map", "dec.sm"]
    st, out2, res = E.run(DC, da, {"/w/doc.json": out}, mode=txtatom)
    if st != 0:
        err("accepted", f"the decompile command does not accept the output of the compile command: {fail_text(res) if res else st}", fail_site(res) if res else "cli/decompile.py")
        return bad
    check_dec(E, rows, SETTINGS, lambda ru, m: err(ru, m, "cli/decompile.py"), out2, txtatom)
    if sm and not E.I.written.get("/w/dec.sm"):
        err("source map file", "no source map was written to the place given with --source-map", "cli/decompile.py")
    return bad


def check_dec(E, rows, set_, err, out, text):
    if E.rec is None or E.calls != 1:
        err("decompiled text", f"the decompiler was asked {E.calls} times")
        return
    cmp_rec(E, rows, set_, err)
    got = [p for p in parts_of(out) if not (isinstance(p, str) and not p.strip("\n"))]
    if got != [p for p in parts_of(text) if p != ""]:
        err("decompiled text", f"stdout is {rep_text(out)[:200]!r}, not the text of the decompiler")


# ---------------------------------------------------------------------------------------------------------- (c)


def doc_models():
    U = lambda n, k="name": AStr((Atom(n, k, False),))
    S = lambda n: SInt((), 0) if False else n
    args = [
        ("int", [0, 1, -1, 32767, -32768, 2**31]),
        ("fixed", [{"type": "FIXED_POINT", "value": v} for v in ("123.456", "0.5", "-1.25", "1.0")]),
        ("constant", [{"type": "CONSTANT", "value": v} for v in ("LEVEL_XYZ", "$VAR", U("con"))]),
        ("string", [{"type": "CONST_STRING", "value": v} for v in ("Hello World", "", "a\nb 'c' \"d\"", U("str", "text"))]),
        ("lang", [{"type": "LANG_STRING", "value": v} for v in ({"english": "Hello World!", "german": "Hallo Welt!"}, {"x": U("ls", "text")}, {"a": "", "b": "\n"})]),
        ("mark", [{"type": "POSITION_MARK", "value": {"name": n, "x": x, "y": y}} for n in ("Name of the mark", U("pm", "text")) for x, y in ((10, 20), ("10", "10.5"), (0, 0.5), (3.5, 7), ("0.5", "255"), (-3, "-4"), ("-2.5", 1))]),
    ]
    kinds = [({"type": "GENERIC"}, None)] + [({"type": "COROUTINE", "name": n}, n) for n in ("NAME", U("coro"))]
    for k in KINDS[2:]:
        for t in (0, 1, 7, -1, 300, "ACTOR_X", "7", U("target")):
            kinds.append(({"type": k, "target_id": t}, t))
    o = lambda n, *p: {"opcode": n, "params": list(p)}
    for i, (r, x) in enumerate(kinds):
        for pre in (0, 1, 2):
            rows = [dict({"type": "GENERIC"}, ops=[o("a"), o("Return")]), dict({"type": "COROUTINE", "name": "C1"}, ops=[])][:pre] + [dict(r, ops=[o("b", 1), o("End")]), dict({"type": "COROUTINE", "name": "LAST"}, ops=[o("Return")]), dict({"type": "GENERIC"}, ops=[])]
            yield f"doc:routine {i}.{pre}", {"settings": SETTINGS, "routines": rows}
    for nm, vals in args:
        for j, v in enumerate(vals):
            yield f"doc:{nm} {j}", {"settings": SETTINGS, "routines": [dict({"type": "GENERIC"}, ops=[o("first", v), o("x", 1, v, v, 2), o("End")]), dict({"type": "ACTOR", "target_id": 0}, ops=[o("y", v), o("Branch", {"type": "CONSTANT", "value": "$V"}, 1, 2), o("Hold")])]}
    yield "doc:all", {"settings": SETTINGS, "routines": [dict(r, ops=[o("x", *[v for _n, vs_ in args for v in vs_]), o("Jump", 1 + i)]) for i, (r, _x) in enumerate(kinds)]}
    yield "doc:no routines", {"settings": SETTINGS, "routines": []}
    s2 = {"performance_progress_list_var_name": U("perf"), "dungeon_mode_constants": {k: U(k) for k, _ in DM}}
    yield "doc:settings", {"settings": s2, "routines": [dict({"type": "GENERIC"}, ops=[o("Return")])]}
    yield "doc:more settings", {"settings": dict(SETTINGS, other=1), "routines": [dict({"type": "GENERIC"}, ops=[o("Return")])]}


def do_doc(E, it):
    from sa.pymodel import json_dumps
    _k, name, doc = it
    bad = []

    def err(rule, msg, con="cli/decompile.py"):
        bad.append(vio(rule, con, f"[{name}] {msg}", str(doc)))

    rows = read_doc(doc)
    assert not isinstance(rows, str), (name, rows)
    text = AStr((Atom("decompiled", "text", False),))
    st, out, res = E.run(DC, ["m.json"], {"/w/m.json": json_dumps(E.I, doc)}, mode=text)
    if st != 0:
        err("accepted", f"a model of the documented form is not accepted: {fail_text(res) if res else st}", fail_site(res) if res else "cli/decompile.py")
        return bad
    check_dec(E, rows, doc["settings"], err, out, text)
    return bad


# ---------------------------------------------------------------------------------------------------------- (d)


def failures():
    import copy
    ok = {"settings": SETTINGS, "routines": [{"type": "ACTOR", "target_id": 1, "ops": [{"opcode": "a", "params": [1, {"type": "CONSTANT", "value": "C"}]}, {"opcode": "End", "params": []}]}, {"type": "COROUTINE", "name": "N", "ops": []}]}
    src = "def 0 { op(); }\n"
    d = lambda **k: ok
    J = _json.dumps
    yield "compile: ok", CC, ["s.exps", "--settings", "set.json"], {"s.exps": src, "set.json": J(OK_SET)}, "T", True
    yield "compile: settings with more", CC, ["s.exps", "--settings", "set.json"], {"s.exps": src, "set.json": J(dict(OK_SET, routines=[]))}, "T", True
    yield "decompile: ok", DC, ["m.json"], {"m.json": J(ok)}, "T", True
    for m, a, f in ((CC, ["s.exps", "--settings", "set.json"], {"s.exps": src, "set.json": J(OK_SET)}), (DC, ["m.json"], {"m.json": J(ok)})):
        n = m.rsplit(".", 1)[1]
        for miss in f:
            yield f"{n}: no file {miss}", m, a, {k: v for k, v in f.items() if k != miss}, "T", False
            yield f"{n}: {miss} is a directory", m, a, {k if k != miss else k + "/x": v for k, v in f.items()}, "T", False
        yield f"{n}: no arguments", m, [], f, "T", False
        yield f"{n}: unknown option", m, a + ["--nope"], f, "T", False
        yield f"{n}: too many files", m, a[:1] + ["other.exps"] + a[1:], f, "T", False
    yield "compile: no --settings", CC, ["s.exps"], {"s.exps": src, "set.json": J(OK_SET)}, "T", False
    yield "compile: no source", CC, ["--settings", "set.json"], {"s.exps": src, "set.json": J(OK_SET)}, "T", False
    cuts = [("settings",), ("settings", "performance_progress_list_var_name"), ("settings", "dungeon_mode_constants")] + [("settings", "dungeon_mode_constants", k) for k, _ in DM]
    for cut in cuts:
        for m in (CC, DC):
            x = copy.deepcopy(ok)
            y = x
            for k in cut[:-1]:
                y = y[k]
            del y[cut[-1]]
            n = m.rsplit(".", 1)[1]
            if m == CC:
                yield f"{n}: no {cut[-1]}", m, ["s.exps", "--settings", "set.json"], {"s.exps": src, "set.json": J(x)}, "T", False
            else:
                yield f"{n}: no {cut[-1]}", m, ["m.json"], {"m.json": J(x)}, "T", False
    for t in ("", "{", "nonsense", "[1]", "{} {}"):
        yield f"compile: settings are {t!r}", CC, ["s.exps", "--settings", "set.json"], {"s.exps": src, "set.json": t}, "T", False
        yield f"decompile: model is {t!r}", DC, ["m.json"], {"m.json": t}, "T", False
    for e in (ValueError("v"), AssertionError("a"), KeyError("k"), RuntimeError("r"), IndexError("i"), OSError("o")):
        yield f"decompile: {type(e).__name__} of the decompiler", DC, ["m.json"], {"m.json": J(ok)}, e, False
    edits = [("no routines", lambda x: x.pop("routines")), ("no ops", lambda x: x["routines"][0].pop("ops")), ("no type", lambda x: x["routines"][0].pop("type")),
             ("no target", lambda x: x["routines"][0].pop("target_id")), ("no name", lambda x: x["routines"][1].pop("name")), ("unknown type", lambda x: x["routines"][0].update(type="NOPE")),
             ("no opcode", lambda x: x["routines"][0]["ops"][0].pop("opcode")), ("no params", lambda x: x["routines"][0]["ops"][0].pop("params")),
             ("param type", lambda x: x["routines"][0]["ops"][0]["params"][1].update(type="NOPE")), ("param without type", lambda x: x["routines"][0]["ops"][0]["params"][1].pop("type")),
             ("param without value", lambda x: x["routines"][0]["ops"][0]["params"][1].pop("value")), ("param is null", lambda x: x["routines"][0]["ops"][0]["params"].append(None)),
             ("param is a string", lambda x: x["routines"][0]["ops"][0]["params"].append("x")),
             ("mark x", lambda x: x["routines"][0]["ops"][0]["params"].append({"type": "POSITION_MARK", "value": {"name": "n", "x": "1.25", "y": 2}})),
             ("mark y", lambda x: x["routines"][0]["ops"][0]["params"].append({"type": "POSITION_MARK", "value": {"name": "n", "x": 1, "y": "b"}}))]
    for nm, f in edits:
        x = copy.deepcopy(ok)
        f(x)
        yield f"decompile: {nm}", DC, ["m.json"], {"m.json": J(x)}, "T", False


def do_fail(E, it):
    _k, name, mod, argv, fs, mode, ok = it
    st, out, res = E.run(mod, argv, {"/w/" + k: v for k, v in fs.items()}, mode=mode)
    con = ("cli/compile.py" if mod == CC else "cli/decompile.py")
    txt = f"{mod} {' '.join(argv)}\n" + "\n".join(f"// {k}\n{v}" for k, v in fs.items())
    if ok and st != 0:
        return [vio("exit status", con, f"[{name}] exits with {st}: {fail_text(res) if res else ''}", txt)]
    if not ok and (st == 0 or st is False):
        return [vio("exit status", con, f"[{name}] the command fails (stdout: {rep_text(out)[:80]!r}) but exits with 0", txt)]
    return []


# ----------------------------------------------------------------------------------------------------------


def items(tier):
    q = tier == "quick"
    out = []
    for n, b in own_programs():
        out.append(("prog", n, b))
    for n, b in forms.programs():
        if not q or n.startswith("routines") or n.startswith("simple:arg") or h32(n) % 12 == 0:
            out.append(("prog", n, b))
    for n, b in macrofam.programs(tier):
        if h32(n) % (25 if q else 2) == 0:
            out.append(("prog", n, b))
    for it in control_items(tier, 700 if q else 12):
        if q and h32(it[0]) % 8:
            continue
        out.append(("prog", it[0], ("control", it)))
    for n, d in doc_models():
        out.append(("doc", n, d))
    for f in failures():
        out.append(("fail",) + f)
    return out


def prepare():
    E = Env(Pipe())
    for m in ("explorerscript.cli", "explorerscript.source_map"):
        E.P.mod(m)
    return E


def work(E, it):
    bad = {"prog": do_program, "doc": do_doc, "fail": do_fail}[it[0]](E, it)
    return ("vio", bad) if bad else ("ok", 1)


def main(tier):
    t0 = time.time()
    its = items(tier)
    res, skipped, lines = run_parallel(its, work, 300 if tier == "quick" else 780, prepare)
    n, vios = summarise(res, skipped)
    for k in ("prog", "doc", "fail"):
        n[k] = sum(1 for i in its if i[0] == k)
    return finish("C15", tier, "other", vios, cover(RULE, n, lines, samples=samples(its, res)), t0)
