"""Checks the interpreter of sa/ against CPython (and the graph model against the real igraph):
selftest/run.py FILE - every expression that a t_ function of FILE returns is evaluated by both.
Nothing of ExplorerScript is run; this tests the trusted base, it decides no property.
For feat2.py: PYTHONPATH=/opt/venv/lib/python3.12/site-packages"""
import ast, os, shutil, sys, tempfile, types
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = tempfile.mkdtemp()
shutil.copytree("/repo/explorerscript", REPO + "/explorerscript")
os.environ["VERIF_REPO"] = REPO
sys.path.insert(0, os.path.dirname(HERE))
src=open(sys.argv[1]).read()
tree=ast.parse(src)
names=[n.name for n in tree.body if isinstance(n,ast.FunctionDef) and n.name.startswith('t_')]
# one module per test function with the shared rest, so that a failing import does not hide the others
rest='\n'.join(ast.unparse(n) for n in tree.body if not (isinstance(n,ast.FunctionDef) and n.name.startswith('t_')))
from sa.pipe import Pipe
from sa.interp import in_big_stack
P=Pipe()
def split(fn):
    """every element of the returned tuple alone"""
    r=fn.body[-1]
    if isinstance(r,ast.Return) and isinstance(r.value,ast.Tuple): return r.value.elts
    return None
tops=[n for n in tree.body if not (isinstance(n,ast.FunctionDef) and n.name.startswith('t_'))]
def names_in(n): return {x.id for x in ast.walk(n) if isinstance(x,ast.Name)}
def defs(n):
    if isinstance(n,(ast.ClassDef,ast.FunctionDef)): return {n.name}
    if isinstance(n,ast.Assign): return {t.id for t in n.targets}
    if isinstance(n,ast.AnnAssign): return {n.target.id}
    return set()
def need(m):
    want=names_in(m); keep=[]
    ch=True
    ks=set()
    while ch:
        ch=False
        for n in tops:
            if not isinstance(n,(ast.Import,ast.ImportFrom)) and id(n) not in ks and (defs(n)&want or (isinstance(n,ast.FunctionDef) and n.name=='_' and 'sd' in want)):
                ks.add(id(n)); want|=names_in(n); ch=True
    out=['from __future__ import annotations']
    for n in tops:
        if isinstance(n,ast.ImportFrom) and n.module!='__future__':
            al=[a for a in n.names if (a.asname or a.name) in want]
            if al: out.append(ast.unparse(ast.ImportFrom(n.module,al,0)))
        elif isinstance(n,ast.Import):
            al=[a for a in n.names if (a.asname or a.name.split('.')[0]) in want]
            if al: out.append(ast.unparse(ast.Import(al)))
        elif id(n) in ks: out.append(ast.unparse(n))
    return '\n'.join(out)
out=[]
def go():
    for n in tree.body:
        if not (isinstance(n,ast.FunctionDef) and n.name.startswith('t_')): continue
        el=split(n)
        cases=[]
        if el:
            for k,e in enumerate(el):
                if isinstance(e,ast.Starred): continue
                m=ast.FunctionDef(name=f'{n.name}_{k}',args=n.args,body=n.body[:-1]+[ast.Return(e)],decorator_list=[],lineno=1)
                cases.append((m,e))
        else: cases=[(n,n)]
        for m,e in cases:
            ast.fix_missing_locations(m)
            body=need(m)+'\n\n'+ast.unparse(m)+f'\n\nRES = repr({m.name}())\n'
            mn=f'zz_{m.name}'
            try:
                ns={"__name__":mn}
                mod=types.ModuleType(mn); sys.modules[mn]=mod; mod.__dict__.update(ns)
                exec(compile(body,mn,'exec'),mod.__dict__); want=mod.RES
            except Exception as x: print('CPY',m.name,type(x).__name__,x,ast.unparse(e)[:80]); continue
            open(f'{REPO}/explorerscript/{mn}.py','w').write(body)
            try: r=P.one(lambda: P.mod('explorerscript.'+mn).ns['RES'])
            except Exception as x: r=type(x).__name__+': '+str(x)[:150]
            got=r if isinstance(r,str) else repr(r)[:200]+str(getattr(r,'text',''))[:200]
            if got!=want.replace(mn,'explorerscript.'+mn) and got!=want: print('DIFF',m.name,ast.unparse(e)[:90],'| want',want[:80],'| got',got[:300],flush=True)
            os.remove(f'{REPO}/explorerscript/{mn}.py')
try:
    in_big_stack(go)
finally:
    shutil.rmtree(REPO)
