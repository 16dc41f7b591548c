"""Entry points of the analysed package, driven through the abstract interpreter."""
from __future__ import annotations

import os

from .engine import Obj, PyExc, exc_name, exc_text
from .interp import Explorer, Interp, Oracle
from .machine import Code, norm_param
from .values import Ctl, Undecided, mkstr

COMPILER = "explorerscript.ssb_converting.ssb_compiler"
DECOMPILER = "explorerscript.ssb_converting.ssb_decompiler"
DATA = "explorerscript.ssb_converting.ssb_data_types"
WATCH = frozenset(["SsbOperation", "SsbLabelJump", "SsbLabel"])
DM = ("DMODE_CLOSE", "DMODE_OPEN", "DMODE_REQUEST", "DMODE_OPEN_AND_REQUEST")


class Result:
    ok = False
    exc = None


class Pipe:
    def __init__(self, repo=None):
        self.I = Interp(repo)
        self.I.watch = WATCH
        self.fresh_modules()

    def fresh_modules(self):
        I = self.I
        I.reset()
        Ctl.oracle = Oracle((), 0)
        for m in (COMPILER, DATA, DECOMPILER):
            I.import_module(m)

    def load_all(self):
        """Import every module of the package that compiling and decompiling can need (they may be imported inside functions)."""
        Ctl.oracle = Oracle((), 0)
        root = os.path.join(self.I.repo, "explorerscript")
        for dp, ds, fs in os.walk(root):
            ds.sort()
            pk = os.path.relpath(dp, self.I.repo).replace("/", ".")
            if pk.split(".")[1:2] and pk.split(".")[1] in ("pygments", "cli"):
                continue
            for f in sorted(fs):
                if f.endswith(".py") and "/antlr" not in dp:
                    self.mod(pk if f == "__init__.py" else pk + "." + f[:-3])

    def mod(self, n):
        return self.I.import_module(n)

    def guard(self, fn, max_traces=1, **kw):
        """Run fn under exploration. -> list of (value | Result with .exc, decisions)."""
        out = []
        ex = Explorer(max_traces=max_traces, **kw)
        for _b, o in ex.run(None):
            self.I.steps = 0
            self.I.depth = 0
            Ctl.interp = self.I
            try:
                v = fn()
            except PyExc as e:
                v = Result()
                v.exc = e
                v.name = exc_name(e.value)
                v.text = exc_text(e.value)
                v.trace = e.trace
            except RecursionError:
                raise Undecided("recursion in the analyser")
            out.append((v, list(o.taken)))
        if ex.cut or (max_traces == 1 and len(out) == 1 and out[0][1]):
            raise Undecided(f"open questions left: {[k for k, _ in out[0][1]][:3]}")
        return out

    def one(self, fn):
        return self.guard(fn, 1)[0][0]

    # -------------------------------------------------------------- compile
    def compile_raw(self, src, path="/v/main.exps", fs=None, lookup=None, compiler=None, perf="$PERF"):
        I = self.I
        I.fs = dict(fs or {})
        I.fs.setdefault(path, src)
        if compiler is None:
            compiler = I.call(self.mod(COMPILER).ns["ExplorerScriptSsbCompiler"], [perf] + ([list(lookup)] if lookup is not None else []), {})
        I.call_method(compiler, "compile", [src, path])
        r = Result()
        r.ok = True
        r.obj = compiler
        d = compiler.d
        r.ops = d["routine_ops"]
        r.infos = d["routine_infos"]
        r.named = d["named_coroutines"]
        r.sm = d["source_map"]
        r.imports = d.get("imports")
        return r

    def compile(self, src, path="/v/main.exps", fs=None, lookup=None, **k):
        r = self.one(lambda: self.compile_raw(src, path, fs, lookup, **k))
        return r


def code_of(r):
    return Code(r.ops)


def info_norm(i):
    d = i.d
    return (d["type"].d["name"], d["linked_to"], d["linked_to_name"])


class SM:
    """A source map as its public interface shows it."""

    def __init__(self, P, sm):
        I = P.I

        def go():
            mac = {k: v for k, v in (tuple(I.iterate(t)) for t in I.iterate(I.call_method(sm, "collect_mappings__macros", [])))}
            allm = [tuple(I.iterate(t)) for t in I.iterate(I.call_method(sm, "__iter__", []))]
            direct = {}
            for k, v in allm:
                d = I.call_method(sm, "get_op_line_and_col__direct", [k])
                if d is not None:
                    direct[k] = d
            marks = list(I.iterate(I.call_method(sm, "get_position_marks__direct", [])))
            mm = [tuple(I.iterate(t)) for t in I.iterate(I.call_method(sm, "get_position_marks__macros", []))]
            return direct, mac, marks, mm

        r = P.one(go)
        if isinstance(r, Result):
            raise Undecided("source map interface: " + str(r.text))
        self.direct, self.macros, self.marks, self.macro_marks = r
