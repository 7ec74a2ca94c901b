#!/usr/bin/env python3
"""run.py OUT file...: mutants of files of /repo which build and pass the tests, and what the checks say."""
import sys,json,subprocess,os,shutil,tempfile,re
from concurrent.futures import ThreadPoolExecutor
B=os.environ.get('LLBIN','/verif/.bin/llcheck'); IDS=os.environ.get('LLIDS','all').split()
ENV='. /opt/vp/env.sh; '
d=os.path.dirname(os.path.abspath(__file__))
ms=subprocess.run(ENV+'cd %s && go build -o /tmp/mutate . && cd /repo && /tmp/mutate %s'%(d,' '.join(sys.argv[2:])),shell=True,capture_output=True,text=True)
ms=[json.loads(l) for l in ms.stdout.splitlines()]
N=int(os.environ.get('JOBS','4'))
import queue
pool=queue.Queue()
base=tempfile.mkdtemp(prefix='mt')
for i in range(N):
    r='%s/%d/repo'%(base,i); shutil.copytree('/repo',r,symlinks=True); pool.put(r)
def go(m):
    r=pool.get()
    try:
        f=r+'/'+m['file']; s=open('/repo/'+m['file'],'rb').read()
        open(f,'wb').write(s[:m['Off']]+m['new'].encode()+s[m['End']:])
        try:
            p=subprocess.run(ENV+'cd %s && go build ./... >/dev/null 2>&1 && timeout 60 go test ./... >/dev/null 2>&1'%r,shell=True,capture_output=True)
            if p.returncode: return None
            try: out=subprocess.run([B,'check']+IDS,env=dict(os.environ,LLREPO=r,LLVERIF=os.path.dirname(r),LLFIRST='1'),capture_output=True,text=True,errors='replace',timeout=400).stdout
            except subprocess.TimeoutExpired: return (m,'TIMEOUT')
            ids=sorted(set(re.findall('VIOLATION property=(C..)',out)))
            return (m,' '.join(ids) or 'QUIET')
        finally: open(f,'wb').write(s)
    finally: pool.put(r)
with open(sys.argv[1],'w') as o, ThreadPoolExecutor(N) as ex:
    for x in ex.map(go,ms):
        if x is None: continue
        m,v=x; s=open('/repo/'+m['file'],'rb').read()
        o.write('%s %s:%d %s | %s -> %s\n'%(v,m['file'],m['line'],m['what'],s[m['Off']:m['End']].decode()[:80].replace('\n','\\n'),m['new'][:80].replace('\n','\\n'))); o.flush()
shutil.rmtree(base)
