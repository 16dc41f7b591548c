"""Subjects of C11 and C12, mixed into groups."""
from __future__ import annotations

from .common import *
from sa import decfam as D
from sa import forms, macrofam, reject, ssbs
from sa import hist
from sa import mapfam as M
from sa.project import as_project


def edit_imports(x):
    n = 0
    for f in x.files.values():
        for m in f.macros:
            m.body.insert(0, op("edited"))
            n += 1
    return n


def edit_macros(x):
    for m in x.main.macros:
        m.body.insert(0, op("edited"))
    return bool(x.main.macros)


def drop_macros(x):
    n = len(x.main.items)
    x.main.items = [i for i in x.main.items if not isinstance(i, Macro)]
    return len(x.main.items) < n


def drop_imports(x):
    n = len(x.main.imports)
    x.main.imports = []
    return n


def drop_files(x):
    x.files = {}
    return True


TWINS = {"imported files edited": edit_imports, "macros edited": edit_macros, "macros removed": drop_macros, "imports removed": drop_imports, "files removed": drop_files}
RAW = [("no semicolon", "def 0 { a() }"), ("open block", "def 0 { a();"), ("bad character", "def 0 { a(); ? b(); }"), ("open string", "def 0 { a('x); }"), ("good", "def 0 { a(); return; }"), ("two errors", "def 0 { a( } def b { }"),
       ("empty", ""), ("routine twice", "def 0 { a(); } def 0 { b(); }"), ("SsbScript by attribute", "//?: is-ssb-script: true\ndef 0 { @label_0; Jump(@label_0); }"),
       ("SsbScript broken", "//?: is-ssb-script: true\ndef 0 { if }"), ("number", "def 0 { a(1.2.3); }"), ("macro broken", "macro m($a { } def 0 { ~m(1); }")]


TEXTS = {f"lang {u} {a}" for u, a in (("hdr-ifsum", "top"), ("hdr-switch", "if"), ("hdr-menu2", "switch"), ("arg", "top"), ("arg", "if"), ("talk", "switch"), ("hdr-talk", "top"), ("hdr-lives", "if"))}


def makers(tier):
    """Units of [(name, maker(P) -> Subject or None)]: the subjects of a unit stay together"""
    out = []
    q = tier == "quick"

    def comp(nm, b, twins=()):
        u = [(nm, lambda P, b=b, nm=nm: hist.Compile(nm, b(fam.G(True))))]
        for t in twins:
            def mk(P, t=t):
                x = as_project(b(fam.G(True)))
                return hist.Compile(f"{nm} ({t})", x) if TWINS[t](x) else None

            u.append((f"{nm} ({t})", mk))
        out.append(u)

    for nm, b in macrofam.programs("quick"):
        if nm.startswith(("dag", "param:")) and q and h32(nm) % 8:
            continue
        if nm.startswith(("body:", "args:", "ret:")) and q and h32(nm) % 4:
            continue
        t = list(TWINS) if nm.startswith("imp:") else ["macros removed", "macros edited"] if h32(nm + "t") % 6 == 0 else []
        comp(nm, b, t)
    for nm, src in RAW:
        out.append([("text " + nm, lambda P, nm=nm, src=src: hist.Raw("text " + nm, src))])
    for nm, b in forms.programs():
        if q and h32(nm) % 8:
            continue
        comp(nm, b)
    for it in control_items("quick", 400 if q else 60):
        if it[1] == "top1" and h32(it[0] + "h") % (12 if q else 3):
            continue
        comp("control " + it[0], lambda g, it=it: build_control(it))
    for nm, b in reject.programs("quick"):
        if h32(nm) % (40 if q else 6):
            continue
        comp("reject " + nm, b)
    for nm, b in ssbs.rsets("quick"):
        if h32(nm) % (6 if q else 2):
            continue
        out.append([("ssbs " + nm, lambda P, b=b, nm=nm: hist.SsbCompile("ssbs " + nm, b(fam.G(True)))),
                    ("ssbs> " + nm, lambda P, b=b, nm=nm: hist.Decompile("ssbs> " + nm, b(fam.G(True)), "1,2,..", True))])

    def dec(nm, mk, num):
        def f(P, mk=mk, nm=nm, num=num):
            rs = mk(P)
            if rs is None:
                return None
            return hist.Decompile(nm, rs, num, False)

        out.append([(nm, f)])

    for n, rs in list(M.ml_header_items()) + list(M.ml_items()):
        if n in TEXTS or not q or h32(n + "ml") % 20 == 0:
            dec("strings> " + n, lambda P, rs=rs: rs, "1,2,..")
    for n, rs in list(D.opforms()) + list(D.headforms()):
        if not q or h32(n) % 2 == 0:
            dec("form> " + n, lambda P, rs=rs: rs, "1,2,..")
    for kinds, ns, mod in [("oRJBCSK", (3,), 60), ("oRJBC", (4,), 300), ("oRJBSK", (5,), 20000), ("oRJBC", (2, 2), 200), ("oRJB", (3, 1), 400)] if q else \
            [("oRJBCSK", (3,), 6), ("oRJBC", (4,), 30), ("oRJBSK", (5,), 2000), ("oRJBC", (2, 2), 20), ("oRJB", (3, 1), 40), ("oRJBSK", (6,), 90000)]:
        for g in D.graphs(ns, kinds, mod, 11):
            nm = f"graph> {ns}{g[1]}"
            dec(nm, lambda P, g=g: D.graph(*g), ("1,2,..", "words", "far")[h32(nm) % 3])
    for k, mod in ((2, 8), (3, 300)) if q else ((2, 1), (3, 30)):
        for w in D.seqs(k, None, mod, 11):
            dec("seq> " + " ".join(w), lambda P, w=w: D.seq(w), "1,2,..")
    for nm, b in forms.programs():
        if h32(nm + "d") % (8 if q else 1):
            continue
        dec("source> " + nm, lambda P, b=b: D.from_source(P, b(fam.G(True))), "1,2,..")
    for it in control_items("quick", 300 if q else 60):
        if it[1] == "top1" and h32(it[0] + "g") % (10 if q else 3):
            continue
        dec("control> " + it[0], lambda P, it=it: D.from_source(P, build_control(it)), ("1,2,..", "words")[h32(it[0]) % 2])
    return out


def groups(tier, size, salt, always=()):
    ms = sorted(makers(tier), key=lambda u: h32(u[0][0] + salt))
    n = max(1, sum(len(u) for u in ms) // size)
    plus = [u[0] for u in ms if u[0][0] in always]
    return [[m for u in ms[k::n] for m in u if u[0][0] not in always] + plus for k in range(n)]
