#!/usr/bin/env python3
"""refactor.py SPEC.py [id...]: applies behaviour-preserving edits in scratch
copies of /repo; every check has to stay quiet on each."""
import sys,os,subprocess,shutil,tempfile,runpy
from concurrent.futures import ThreadPoolExecutor
V='/verif'
specs=[a for a in sys.argv[1:] if a.endswith('.py')]
only=[a for a in sys.argv[1:] if not a.endswith('.py')]
if not specs: specs=sorted(V+'/tools/refactors/'+f for f in os.listdir(V+'/tools/refactors') if f.endswith('.py'))
L=[]
for s in specs: L+=runpy.run_path(s)['REFACTORS']
if only: L=[x for x in L if any(x['id'].startswith(o) for o in only)]
def one(x):
    w=tempfile.mkdtemp(prefix='rf')
    try:
        r=w+'/repo'; shutil.copytree('/repo',r,symlinks=True)
        for f,old,new in x['edits']:
            s=open(r+'/'+f).read()
            if s.count(old)!=1: return x['id'],'BAD edit matches %d times: %r'%(s.count(old),old[:50]),''
            open(r+'/'+f,'w').write(s.replace(old,new))
        b=subprocess.run('. /opt/vp/env.sh; go build ./... && go test -count=1 ./...',cwd=r,shell=True,executable='/bin/bash',stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if b.returncode: return x['id'],'BAD tests/build fail',b.stdout[-600:]
        env=dict(os.environ,LLREPO=r,LLVERIF=w)
        o=subprocess.run([V+'/.bin/llcheck','check','all'],env=env,capture_output=True,text=True,errors='replace')
        hit=sorted({l.split('property=')[1].split()[0] for l in o.stdout.splitlines() if l.startswith('VIOLATION')})
        if hit or o.returncode:
            return x['id'],'ALARM '+' '.join(hit)+(' rc=%d'%o.returncode),('\n'.join(l for l in o.stdout.splitlines() if not l.startswith('ok '))[:2500] if os.environ.get('VERB') else '')
        return x['id'],'quiet',''
    finally: shutil.rmtree(w)
with ThreadPoolExecutor(6) as ex:
    for i,a,b in ex.map(one,L): print(i,a,b,flush=True)
