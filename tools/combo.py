#!/usr/bin/env python3
"""combo.py N SEED suite.py...: N random combinations of refactorings that apply
together; prints those on which the checks are not quiet."""
import sys,runpy,random,subprocess,os,shutil,tempfile,re
from concurrent.futures import ThreadPoolExecutor
N,seed=int(sys.argv[1]),int(sys.argv[2])
R=[x for f in sys.argv[3:] for x in runpy.run_path(f)['REFACTORS']]
skip=set(os.environ.get('SKIP','').split())
R=[x for x in R if x['id'] not in skip]
rnd=random.Random(seed)
B=os.environ.get('LLBIN','/verif/.bin/llcheck')
def plan():
    L=R[:]; rnd.shuffle(L); files={}; used=[]
    want=rnd.randint(2,6)
    for x in L:
        if len(used)==want: break
        new=dict(files); ok=True
        for f,a,b in x['edits']:
            s=new[f] if f in new else (open('/repo/'+f).read() if os.path.exists('/repo/'+f) else '')
            if s.count(a)!=1: ok=False; break
            new[f]=s.replace(a,b)
        if ok: files=new; used.append(x['id'])
    return used,files
def go(p):
    used,files=p
    t=tempfile.mkdtemp(prefix='cb'); r=t+'/repo'
    try:
        shutil.copytree('/repo',r,symlinks=True)
        for f,s in files.items():
            os.makedirs(os.path.dirname(r+'/'+f),exist_ok=True); open(r+'/'+f,'w').write(s)
        p=subprocess.run('. /opt/vp/env.sh; cd %s && go vet ./... 2>&1 && go test ./... 2>&1'%r,shell=True,capture_output=True,text=True,errors='replace')
        if p.returncode: return ' '.join(used)+' INVALID'
        try: out=subprocess.run([B,'check']+os.environ.get('LLIDS','all').split(),env=dict(os.environ,LLREPO=r,LLVERIF=t),capture_output=True,text=True,errors='replace',timeout=1500).stdout
        except subprocess.TimeoutExpired: return ' '.join(used)+' TIMEOUT'
        ids=sorted(set(re.findall('VIOLATION property=(C..)',out)))
        walls=[float(x) for x in re.findall(r'wall=([\d.]+)s',out)]
        d='' if not ids else '\n'+'\n'.join(l[:200] for l in out.split('\n') if l.startswith('  '))[:1200]
        return ' '.join(used)+(' quiet max=%.0fs'%max(walls or [0]) if not ids else ' ALARM '+' '.join(ids)+d)
    finally: shutil.rmtree(t,ignore_errors=True)
with ThreadPoolExecutor(int(os.environ.get('JOBS','3'))) as ex:
    for o in ex.map(go,[plan() for _ in range(N)]): print(o,flush=True)
