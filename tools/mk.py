#!/usr/bin/env python3
"""mk.py SPEC.py ID DIR: a copy of /repo with one refactoring (or plant) applied."""
import sys,runpy,shutil
d=runpy.run_path(sys.argv[1]); L=d.get('REFACTORS') or d.get('PLANTS')
x=[x for x in L if x['id'].startswith(sys.argv[2])][0]
shutil.copytree('/repo',sys.argv[3],symlinks=True)
for f,a,b in x['edits']:
    s=open(sys.argv[3]+'/'+f).read(); assert s.count(a)==1,(f,a[:40]); open(sys.argv[3]+'/'+f,'w').write(s.replace(a,b))
