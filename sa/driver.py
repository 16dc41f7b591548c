"""Runs obligations in parallel, applies the known-findings list, writes evidence, reports violations."""
from __future__ import annotations

import gc
import json
import multiprocessing as mp
import os
import pickle
import sys
import time
import traceback

from .interp import in_big_stack
from .engine import PyExc
from .values import Ctl, Undecided

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


ASSUMPTIONS = [
    "CPython 3.12 semantics as written in sa/engine.py, sa/interp.py and sa/pymodel.py (the modelled subset; anything outside is 'undecided', never a pass)",
    "antlr4 runtime (lexer simulation, adaptive prediction, tree walking) as modelled in sa/antlrmodel.py from the ATN data in the generated files",
    "atoms (names, constants, labels, string contents, numbers) stand for all values of their kind: the code may only compare, store or print them; any other use stops the path as undecided",
]


def cover(rule, n, lines, repo_lines=None, samples=None, **kw):
    """The coverage record of one run, all counts measured."""
    fns = sorted({(f.split("/explorerscript/")[-1], q) for f, q, l in lines}) if lines and len(next(iter(lines))) == 3 else None
    files = {}
    for t in lines:
        files.setdefault(t[0].split("/explorerscript/")[-1], set()).add(t[-1])
    c = {
        "explanation": f"{rule} Decided {n['decided']} obligations ({n['violated']} violated, {n['undecided']} undecided, {n['partial']} decided only for the representatives of their leaves, {n['not_reached']} not reached in the time limit); "
                       f"the analysis covered {sum(len(v) for v in files.values())} source lines in {len(files)} modules of /repo as they are now.",
        "rule": rule,
        "counts": n,
        "source_lines_analysed": {f: len(v) for f, v in sorted(files.items())},
    }
    if fns:
        c["functions_analysed"] = len(fns)
    if samples:
        c["samples"] = samples
    c.update(kw)
    return c


class Vio:
    """One violated obligation. (rule, construct) is the stable identity; detail is for the reader."""

    def __init__(self, rule, construct, detail, schema=""):
        self.rule, self.construct, self.detail, self.schema = rule, construct, detail, schema


class Broken(Exception):
    """The analysis itself cannot give an answer (anchor gone, too little decided)."""


def attempt(work, ctx, item):
    try:
        return work(ctx, item)
    except Undecided as e:
        return ("undecided", str(e)[:300])
    except Exception as e:  # a defect of the checker itself
        return ("error", "".join(traceback.format_exception(e))[-1800:])


def run_parallel(items, work, budget, prepare=None, nproc=None):
    """items: list; work(ctx, item) -> (status, payload). Returns list of (index, status, payload), skipped count."""
    nproc = nproc or min(8, os.cpu_count() or 2)
    nproc = max(1, min(nproc, len(items)))
    ctx = prepare() if prepare else None
    gc.collect()
    gc.freeze()
    counter = mp.Value("i", 0)
    t_end = time.time() + budget
    kids = []
    for k in range(nproc):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                gc.disable()
                out = []
                n = 0
                while True:
                    with counter.get_lock():
                        i = counter.value
                        counter.value += 1
                    if i >= len(items) or time.time() > t_end:
                        break
                    st = attempt(work, ctx, items[i])
                    if st[0] == "undecided" and "open questions left" in st[1]:
                        # The answer depends on the values of leaves: decide the partition of their representatives.
                        Ctl.rep = True
                        try:
                            st2 = attempt(work, ctx, items[i])
                        finally:
                            Ctl.rep = False
                        if st2[0] == "vio":
                            st = st2
                        elif st2[0] == "ok":
                            st = ("partial", st[1])
                    out.append((i,) + tuple(st))
                    n += 1
                    if n % 400 == 0:
                        gc.collect()
                with os.fdopen(w, "wb") as f:
                    pickle.dump((out, cover_snapshot(ctx)), f)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    res = []
    lines = set()
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            raise Broken("a worker died")
        out, lns = pickle.loads(data)
        res += out
        lines |= lns
    res.sort(key=lambda t: t[0])
    return res, len(items) - len(res), lines


def cover_snapshot(ctx):
    I = getattr(ctx, "I", None)
    if I is None:
        return set()
    return set(I.lines)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def finish(prop, tier, level, vios, coverage, t0, family_note=None):
    """Evidence file, KNOWN-FINDING / VIOLATION lines, exit status."""
    known = [k for k in load_known() if k["property"] == prop and k.get("status") == "open"]
    groups = {}
    for v in vios:
        groups.setdefault((v.rule, v.construct), []).append(v)
    new, old = [], []
    for g, vs in groups.items():
        hit = None
        for k in known:
            if k["rule"] == g[0] and k["construct"] == g[1]:
                hit = k
        (old if hit else new).append((g, vs, hit))
    seen_ids = set()
    for k in known:
        n = sum(len(vs) for g, vs, h in old if h is k)
        print(f"KNOWN-FINDING: property={prop} {k['what']} [{k['rule']} @ {k['construct']}; {n} obligation(s)]")
    coverage = dict(coverage)
    coverage["violated_obligations"] = sum(len(v) for v in groups.values())
    coverage["known_findings"] = [k["what"] for k in known]
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level,
        "coverage": coverage,
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if new:
        coverage["violation_details"] = [{"rule": g[0], "construct": g[1], "count": len(vs), "detail": vs[0].detail[:4000], "schema": vs[0].schema[:4000]} for g, vs, _ in new]
    with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str, ensure_ascii=False)
    if not new:
        print(f"OK {prop}: {coverage.get('explanation', '')[:160]}")
        return 0
    rp = os.path.join(evdir, f"{prop}.violations.txt")
    with open(rp, "w") as f:
        for g, vs, _ in new:
            f.write(f"rule: {g[0]}\nconstruct: {g[1]}\nobligations: {len(vs)}\n")
            for v in vs[:3]:
                f.write("--- schema\n" + v.schema + "\n--- finding\n" + v.detail + "\n")
            f.write("=" * 78 + "\n")
    for g, vs, _ in new[:12]:
        print(f"  [{g[0]}] at {g[1]} ({len(vs)} obligation(s)): {vs[0].detail[:400]}")
    print(f"VIOLATION property={prop} replay={rp}")
    return 1


def tier_of(argv):
    t = os.environ.get("VERIF_TIER", "quick")
    for i, a in enumerate(argv):
        if a == "--tier":
            t = argv[i + 1]
    return "thorough" if t == "thorough" else "quick"


def summarise(res, skipped, floor=0.9, what="obligations"):
    """-> (counts, vios); raises Broken when too little was decided."""
    n = {"decided": 0, "violated": 0, "partial": 0, "undecided": 0, "not_reached": skipped, "error": 0}
    vios, und, err = [], {}, []
    for t in res:
        st = t[1]
        if st == "ok":
            n["decided"] += 1
        elif st == "vio":
            n["decided"] += 1
            n["violated"] += 1
            for v in t[2]:
                vios.append(Vio(*v))
        elif st in ("undecided", "partial"):
            n[st] += 1
            und[t[2]] = und.get(t[2], 0) + 1
        else:
            n["error"] += 1
            err.append(t[2])
    total = len(res)
    if err:
        print("checker errors:", len(err), file=sys.stderr)
        print(err[0], file=sys.stderr)
    if not vios and (err or total == 0 or n["decided"] + n["partial"] < floor * total):
        raise Broken(f"only {n['decided']} of {total} {what} decided ({n['undecided']} undecided, {n['error']} errors): {sorted(und.items(), key=lambda x: -x[1])[:4]}")
    n["undecided_reasons"] = dict(sorted(und.items(), key=lambda x: -x[1])[:8])
    return n, vios
