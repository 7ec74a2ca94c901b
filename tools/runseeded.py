#!/usr/bin/env python3
"""runseeded.py [id...]: runs all claimed checks against every planted change (in scratch copies)."""
import sys,os,subprocess,shutil,json,tempfile
from concurrent.futures import ThreadPoolExecutor
V='/verif'
ids=sys.argv[1:] or sorted(os.listdir(V+'/seeded'))
def one(i):
    w=tempfile.mkdtemp(prefix='rs')
    try:
        r=w+'/repo'; shutil.copytree('/repo',r,symlinks=True)
        a=subprocess.run(['git','apply',V+'/seeded/'+i+'/patch.diff'],cwd=r,capture_output=True,text=True,errors='replace')
        if a.returncode: return i,'patch does not apply '+a.stderr,''
        prop=json.load(open(V+'/seeded/'+i+'/meta.json'))['property']
        env=dict(os.environ,LLREPO=r,LLVERIF=w)
        o=subprocess.run([V+'/.bin/llcheck','check','all'],env=env,capture_output=True,text=True,errors='replace')
        hit=sorted({l.split('property=')[1].split()[0] for l in o.stdout.splitlines() if l.startswith('VIOLATION')})
        return i,('CAUGHT' if prop in hit else 'MISSED')+' '+prop,'by '+' '.join(hit)
    finally: shutil.rmtree(w)
with ThreadPoolExecutor(6) as ex:
    for x in ex.map(one,ids): print(*x,flush=True)
