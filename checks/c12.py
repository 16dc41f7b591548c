"""C12: calls at the same time do not touch each other."""
from __future__ import annotations

import ast

from .common import *
from .histitems import groups
from sa import hist
from sa.effects import Effects
from sa.hist import differ, run
from sa.threads import Count, Waits, run_pair

RULE = ("Effect analysis: everything reachable from the modules, classes, functions, defaults and closures of the program is shared between threads; every compilation and decompilation of the families is interpreted with all its writes compared to that set. "
        "A call that writes nothing shared and nothing of the process (working directory, recursion limit, environment) cannot be seen by another call. Where calls do write shared state, one call is stopped at each statement of the functions that mention the "
        "written name, another call runs (as far as locks let it), the first goes on, and both must give what they give alone.")


def mentions(P, names):
    """Statements of functions that mention one of the names: [(file, line, function)]"""
    import os

    out = []
    root = os.path.join(P.I.repo, "explorerscript")
    for dp, _d, fs in os.walk(root):
        for f in fs:
            if not f.endswith(".py") or "antlr" in dp:
                continue
            p = os.path.join(dp, f)
            src = open(p, encoding="utf-8").read()
            if not any(n in src for n in names):
                continue
            for fn in ast.walk(ast.parse(src)):
                if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    used = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(fn) if isinstance(x, ast.Attribute)}
                    if used & names:
                        for st in ast.walk(fn):
                            if isinstance(st, ast.stmt) and st is not fn:
                                out.append((p, st.lineno, fn.name))
    return sorted(set(out))


def words(loc):
    import re

    return {w for w in re.findall(r"\w+", str(loc[0]).split(" of ")[0].split(".")[-1] + " " + str(loc[1] or "")) if not w.isdigit()}


def interleave(P, subs, base, users, locs, sites, cap):
    """Run pairs of calls that use the same shared state. -> [(construct, message, schema)]"""
    I = P.I
    names = set()
    for l in locs:
        names |= words(l)
    wf = {(f, q.split(".")[-1]) for f, q in sites}
    pts = sorted(mentions(P, names), key=lambda p: not any(p[0].endswith("/" + f) and p[2] == q for f, q in wf))
    out, n = [], 0
    cat = lambda k: (subs[k].kind, base[k][1] if base[k][0] == "raised" else "")

    def spread(l, n):
        seen, a, b = set(), [], []
        for k in l:
            (b if cat(k) in seen else a).append(k)
            seen.add(cat(k))
        return (a + b)[:n]

    pre = [k for k in users if subs[k].name in ALWAYS]
    others = pre + [k for k in spread(users + [k for k in range(len(subs)) if k not in users], 6) if k not in pre]
    alone = {}

    def fresh():
        P.fresh_modules()
        P.load_all()

    def want(k):
        if k not in alone:
            fresh()
            alone[k] = run(P, subs[k])[0]
        return alone[k]

    firsts = pre + [k for k in spread(users, 4) if k not in pre]
    for m, k in enumerate(firsts):
        want(k)
        fresh()
        before = set(I.lines)
        I.lines.clear()
        E = Effects(P)
        C = Count(P, E)
        C.run(lambda: run(P, subs[k]))
        hit = set(I.lines)
        I.lines.update(before)
        near = []  # just before and just after writes: the first two and the last of every place
        by = {}
        for c, loc, key in C.at:
            by.setdefault((loc, key), []).append(c)
        for (_loc, (f, ln)), cs in sorted(by.items(), key=str):
            for c in dict.fromkeys([cs[0], cs[-1]] + cs[1:2]):
                near += [(None, c + 1, f, ln), (None, c, f, ln)]
        near = list(dict.fromkeys(near))
        rest = [((f, ln), nth, f, ln) for nth in (1, 2) for f, ln, fn in pts if (f, ln) in hit]
        room = max(cap - n, 0) // (len(firsts) - m)
        width = len(others)
        if len(near) * width > room * 2 // 3:  # every point with some other call
            near = near[: max(room * 2 // 3, 1)]
            width = max(1, room * 2 // 3 // len(near))
        todo = [(p, others[(x + y) % len(others)]) for x, p in enumerate(near) for y in range(width)]
        todo += [(p, j) for p in rest for j in others]
        for (watch, nth, f, ln), j in todo[:room]:
            want(j)
            n += 1
            fresh()
            fn = next((q for g, l, q in pts if (g, l) == (f, ln)), "")
            at = f"{f.split('/explorerscript/')[-1]}:{fn}"
            try:
                a, b = run_pair(P, lambda: run(P, subs[k]), lambda: run(P, subs[j]), watch, nth)
            except Waits:
                out.append((at, f"{subs[k].kind} [{subs[k].name}] stopped at line {ln} and {subs[j].kind} [{subs[j].name}] wait for each other", subs[k].text()))
                return out, n
            if b is None or b[0] == "e" and isinstance(b[1], Undecided):
                continue
            if b[0] == "e":
                raise b[1]
            for who, x, other in ((k, a[0], j), (j, b[1][0], k)):
                d = differ(want(who), x)
                if d:
                    out.append((at, f"{subs[who].kind} [{subs[who].name}] while {subs[other].kind} [{subs[other].name}] runs (switched at line {ln}): {d}", subs[who].text()))
                    return out, n
    return out, n


CLEAR = {}  # sets of shared locations -> groups whose interleavings showed nothing (of this worker)


def work(P, it):
    I = P.I
    P.fresh_modules()
    subs = [x for x in (mk(P) for _n, mk in it[1]) if x is not None]
    P.fresh_modules()
    P.load_all()
    E = Effects(P)
    base = []
    users = {}
    for k, s in enumerate(subs):
        E.begin()
        b, _l = run(P, s)
        for l in E.end():
            users.setdefault(l, []).append(k)
        base.append(b)
    v = []
    shared = []
    for l, r in E.log.items():
        st = sorted(r["sites"])[0]
        if l[0].startswith("process"):
            v.append(("process state", f"{st[0]}:{st[1]}", f"{len(users[l])} calls change the {l[0].split(': ')[1]}, e.g. {subs[users[l][0]].kind} [{subs[users[l][0]].name}]", subs[users[l][0]].text()))
        else:
            shared.append(l)
    pairs = 0
    clear = frozenset(l[0] for l in shared)
    if shared and CLEAR.get(clear, 0) < 3:
        us = sorted({k for l in shared for k in users[l]}, key=lambda k: (subs[k].name not in ALWAYS, h32(subs[k].name), k))
        fs, pairs = interleave(P, subs, base, us, shared, {x for l in shared for x in E.log[l]["sites"]}, 240)
        CLEAR[clear] = CLEAR.get(clear, 0) + (not fs)
        for c, m, t in fs:
            v.append(("shared state", c, f"{m}; shared: {[f'{a}.{b}' if b else a for a, b in shared][:3]}", t))
    return ("vio", [vio(*x) for x in v]) if v else ("ok", (len(subs), len(shared), pairs, len(E.shared)))


ALWAYS = ("text open block", "text good", "strings> lang arg top", "strings> lang arg if")


def main(tier):
    t0 = time.time()
    its = [("group", g) for g in groups(tier, 14, "c12" + ("" if tier == "quick" else "t"), ALWAYS)]
    res, skipped, lines = run_parallel(its, work, 240 if tier == "quick" else 720, Pipe)
    n, vios = summarise(res, skipped, what="groups")
    ok = [t[2] for t in res if t[1] == "ok"]
    n["calls_with_all_writes_checked"] = sum(x[0] for x in ok)
    n["shared_locations_written"] = max([x[1] for x in ok] or [0])
    n["interleavings"] = sum(x[2] for x in ok)
    n["shared_objects"] = max([x[3] for x in ok] or [0])
    return finish("C12", tier, "other", vios, cover(RULE, n, lines, samples=[f"{m[0]}" for it in its[:3] for m in it[1][:2]]), t0)
