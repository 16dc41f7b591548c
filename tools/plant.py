import sys, os, subprocess, shutil, json, importlib.util
spec = importlib.util.spec_from_file_location("b", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = sys.argv[2:]
PY='/opt/venv/bin/python'
S='/tmp/w/pl'
BASE=set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
PRE='''import os, sys, json, tempfile, subprocess, threading
sys.path.insert(0, os.getcwd())
sys.setrecursionlimit(10000)
'''
for b in m.BUGS:
    if only and b['id'] not in only: continue
    shutil.rmtree(S, ignore_errors=True); sh(f'cp -a /repo {S}')
    ok=True
    for f,o,n in b['edits']:
        p=f'{S}/{f}'; s=open(p).read()
        if s.count(o)!=1: print(b['id'],'EDIT COUNT',s.count(o),f,repr(o[:60])); ok=False; break
        open(p,'w').write(s.replace(o,n))
    if not ok: continue
    d=f'/verif/seeded/{b["id"]}'; os.makedirs(d,exist_ok=True)
    diff=sh(f'git -C {S} diff').stdout
    open(f'{d}/patch.diff','w').write(diff)
    open(f'{d}/demo.py','w').write(PRE+b['demo'])
    open(f'{d}/demo.sh','w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(f'{d}/meta.json','w'),indent=1)
    a=sh(f'bash {d}/demo.sh',cwd='/repo',timeout=280)
    c=sh(f'bash {d}/demo.sh',cwd=S,timeout=280)
    t=sh(f'{PY} -m pytest -q -p no:cacheprovider --timeout=300 -x 2>&1 | tail -3',cwd=S, env=dict(os.environ,PYTHONPATH=S))
    good = a.returncode==0 and c.returncode!=0 and '111 passed' in t.stdout
    res=''
    if good or '-f' in sys.argv:
        k=sh(f'python3 check.py {b["prop"]} --tier quick',cwd='/verif',env=dict(os.environ,VERIF_REPO=S))
        res=f'rc={k.returncode} '+ (k.stdout+k.stderr).strip()[:500]
    print(b['id'], b['prop'], 'GOOD' if good else f'BAD base={a.returncode} pl={c.returncode} {t.stdout.strip()[-120:]} {a.stderr[-300:]} || {c.stderr[-200:]}', '|', res, flush=True)
    if not good: shutil.rmtree(d)
