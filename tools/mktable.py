#!/usr/bin/env python3
"""rewrites the table of planted changes in DESIGN.md"""
import json,glob,collections
d=collections.defaultdict(list)
for f in sorted(glob.glob('/verif/seeded/*/meta.json')): d[json.load(open(f))['property']].append(f.split('/')[-2])
t='| check | planted changes it reports |\n|---|---|\n'+''.join('| %s | %s |\n'%(k,', '.join(d[k])) for k in sorted(d))
s=open('/verif/DESIGN.md').read()
i=s.index('<!-- table -->')+15; j=s.index('<!-- end -->')
open('/verif/DESIGN.md','w').write(s[:i]+t+s[j:])
