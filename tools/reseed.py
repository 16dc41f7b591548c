#!/usr/bin/env python3
"""Runs the check of each planted bug on a scratch copy of /repo with the bug applied: reseed.py [id...]."""
import json, os, shutil, subprocess, sys, time
S = "/tmp/reseed_repo"
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for i in sorted(sys.argv[1:] or os.listdir(f"{here}/seeded")):
    d = f"{here}/seeded/{i}"
    p = json.load(open(f"{d}/meta.json"))["property"]
    shutil.rmtree(S, ignore_errors=True)
    sh(f"cp -a /repo {S}")
    a = sh(f"git -C {S} apply {d}/patch.diff")
    t = time.time()
    k = sh(f"python3 check.py {p} --tier quick", cwd=here, env=dict(os.environ, VERIF_REPO=S))
    print(i, p, "apply-failed" if a.returncode else "", f"rc={k.returncode}", f"{time.time()-t:.0f}s", (k.stdout + k.stderr).strip()[:200].replace("\n", " | "), flush=True)
    shutil.rmtree(S, ignore_errors=True)
