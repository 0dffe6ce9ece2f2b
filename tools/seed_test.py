#!/usr/bin/env python3
"""Tries planted bugs in a scratch copy of the repository: seed_test.py DIR [id ...] [--no-check]
For each: the demonstration on the unchanged copy, the build and the tests with the change, the demonstration
with the change, and the property's quick check against the changed copy.  A development aid; no check uses it."""
import json, os, shutil, subprocess, sys, time
S=os.path.abspath(sys.argv[1]); args=[a for a in sys.argv[2:] if not a.startswith('--')]
nocheck='--no-check' in sys.argv; nodemo0='--no-demo0' in sys.argv
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV=dict(os.environ,CC='gcc',CXX='g++')
def sh(c,cwd=S,t=900,env=ENV):
    try: p=subprocess.run(c,shell=isinstance(c,str),cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,env=env,text=True,errors='replace'); return p.returncode,p.stdout
    except subprocess.TimeoutExpired as e: return 124,str(e.output)
if not os.path.isdir(S):
    subprocess.run(['git','-C','/repo','worktree','add','-q','--detach',S,'HEAD'],check=True)
def build():
    return sh('cmake -S . -B _build -G Ninja -DBUILD_TESTING=ON -DCMAKE_CXX_FLAGS="-isystem /opt/vp/compat -include cstdint" -DCMAKE_CXX_STANDARD_LIBRARIES="-lCatch2Main -lCatch2" >/dev/null && ninja -C _build 2>&1 | tail -15; exit ${PIPESTATUS[0]}'.replace('ninja -C _build 2>&1 | tail -15; exit ${PIPESTATUS[0]}','ninja -C _build'))
ids=args or sorted(os.listdir(V+'/seeded'))
for b in ids:
    d=f'{V}/seeded/{b}'; meta=json.load(open(d+'/meta.json')); prop=meta['property']
    sh(['git','checkout','-q','--','.']); out=[]
    if not nodemo0:
        r,o=sh(['bash',d+'/demo.sh'],t=300); out.append(f'demo0={r}'+('' if r==0 else '!! '+o[-300:]))
    r,o=sh(['git','apply',d+'/patch.diff']); 
    if r: print(b,prop,'DOES NOT APPLY',o); continue
    r,o=build(); out.append(f'build={r}'+('' if r==0 else '!! '+o[-1500:]))
    if r==0:
        r,o=sh('ctest --test-dir _build -j4 --timeout 60 2>&1 | tail -8'); 
        ok='100% tests passed' in o; out.append('tests='+('ok' if ok else 'FAIL '+o))
        r,o=sh(['bash',d+'/demo.sh'],t=300); out.append(f'demo1={r}'+('' if r else '!!')+' '+' '.join(o.split())[-80:])
        if not nocheck:
            t=time.time()
            r,o=sh(['python3','sim/check.py','--property',prop],cwd=V,env=dict(os.environ,VERIF_REPO=S,VERIF_SEED='1',VERIF_TIER='quick'))
            v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
            out.append(f'check={r} {time.time()-t:.0f}s '+(' '.join(v)[:150] if v else 'NOT CAUGHT '+o[-300:]))
            viol=[l for l in o.splitlines() if 'violat' in l.lower() or 'clause' in l.lower()]
            out.append(' | '.join(viol[:2])[:300])
    print(b,prop,*out,sep='  ',flush=True)
    sh(['git','checkout','-q','--','.'])
