#!/usr/bin/env python3
"""Runs checks on scratch copies of /repo with behaviour-preserving edits: quiet.py <cases.py> [ids].  Every check has to stay quiet.
CASES = [dict(id, props, edits=[(file, old, new) | (file, None, whole text)])]"""
import importlib.util, os, shutil, subprocess, sys, time
spec = importlib.util.spec_from_file_location("b", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
S = "/tmp/quiet_repo"
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for c in m.CASES:
    if sys.argv[2:] and c["id"] not in sys.argv[2:]:
        continue
    shutil.rmtree(S, ignore_errors=True)
    sh(f"cp -a /repo {S}")
    bad = ""
    for f, o, n in c["edits"]:
        p = f"{S}/{f}"
        s = open(p).read() if os.path.exists(p) else ""
        if o is not None and s.count(o) != 1:
            bad = f"EDIT COUNT {s.count(o)} {f} {o[:60]!r}"
            break
        open(p, "w").write(n if o is None else s.replace(o, n))
    if bad:
        print(c["id"], bad)
        continue
    t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -x 2>&1 | tail -3", cwd=S, env=dict(os.environ, PYTHONPATH=S))
    if "111 passed" not in t.stdout:
        print(c["id"], "TESTS", t.stdout[-300:])
        continue
    for p in c["props"]:
        t0 = time.time()
        k = sh(f"python3 check.py {p} --tier quick", cwd=here, env=dict(os.environ, VERIF_REPO=S))
        print(c["id"], p, "quiet" if k.returncode == 0 else f"rc={k.returncode} ALARM", f"{time.time()-t0:.0f}s", "" if k.returncode == 0 else (k.stdout + k.stderr).strip()[:600], flush=True)
    shutil.rmtree(S, ignore_errors=True)
