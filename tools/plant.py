#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: makes /verif/seeded/<id>/ from a list of planted
changes, keeping only those that apply, build, pass the tests and are shown by
their demonstration."""
import sys,os,subprocess,shutil,json,tempfile,runpy
ENV="""#!/bin/bash
# exit 0: the property's demonstration passes; nonzero: it fails
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false"
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/pkg/parser/zz_demo_test.go":"%s/demo.go.txt"}}' "$PWD" "$d" > "$t/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" @FLAGS@ ./pkg/parser
"""
def sh(cmd,cwd,**k): return subprocess.run(cmd,cwd=cwd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def main():
    spec=runpy.run_path(sys.argv[1])['PLANTS']; only=set(sys.argv[2:])
    for p in spec:
        if only and p['id'] not in only: continue
        out='/verif/seeded/'+p['id']
        w=tempfile.mkdtemp(prefix='plant')
        try:
            r=w+'/repo'; shutil.copytree('/repo',r,symlinks=True)
            ok=True
            for f,old,new in p['edits']:
                s=open(r+'/'+f).read()
                if s.count(old)!=1: print(p['id'],'edit matches',s.count(old),'times:',old[:60]); ok=False; break
                open(r+'/'+f,'w').write(s.replace(old,new))
            if not ok: continue
            diff=sh('git diff',r).stdout
            b=sh('. /opt/vp/env.sh; go build ./... && go vet ./pkg/... ; go test -count=1 ./...',r)
            if 'FAIL' in b.stdout or b.returncode: print(p['id'],'tests/build fail:',b.stdout[-600:]); continue
            os.makedirs(out,exist_ok=True)
            open(out+'/patch.diff','w').write(diff)
            open(out+'/demo.go.txt','w').write(p['demo'])
            open(out+'/demo.sh','w').write(ENV.replace("@FLAGS@",p.get('flags','')))
            os.chmod(out+'/demo.sh',0o755)
            json.dump({'property':p['property'],'needs':p['needs'],'what_it_breaks':p['breaks']},open(out+'/meta.json','w'),indent=1)
            d=w+'/demo'; shutil.copytree(out,d)
            bad=sh('bash '+d+'/demo.sh',r)
            sh('git checkout -- .',r)
            good=sh('bash '+d+'/demo.sh',r)
            if good.returncode!=0: print(p['id'],'demo fails on clean tree:',good.stdout[-800:]); shutil.rmtree(out); continue
            if bad.returncode==0: print(p['id'],'demo passes with the change:',bad.stdout[-800:]); shutil.rmtree(out); continue
            if 'build failed' in bad.stdout or 'setup failed' in bad.stdout: print(p['id'],'demo does not build',bad.stdout[-800:]); shutil.rmtree(out); continue
            print(p['id'],'kept')
        finally: shutil.rmtree(w)
main()
