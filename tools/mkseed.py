#!/usr/bin/env python3
# mkseed.py ID PROP FILE OLD NEW -- used interactively: makes seeded/ID/patch.diff from a replacement in /repo.
import sys,subprocess,os,json
R=os.environ.get('VERIF_REPO','/repo')
def seed(id,prop,edits,needs,breaks,demo,files={}):
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    for f,old,new in edits:
        p=R+'/'+f; s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old))
        open(p,'w').write(s.replace(old,new))
    diff=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(diff)
    subprocess.run(['git','-C',R,'checkout','-q','--','.'])
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.sh','w').write(demo); os.chmod(d+'/demo.sh',0o755)
    for n,c in files.items(): open(d+'/'+n,'w').write(c)
    if 'scan.sh' in demo: open(d+'/scan.sh','w').write(open('/verif/tools/scan.sh').read())
def scandemo(body): return '#!/bin/bash\n. "$(dirname "$0")/scan.sh"\n'+body
def testdemo(pkg): return f'''#!/bin/bash
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
printf '{{"Replace":{{"%s/{pkg}/zz_demo_test.go":"%s/demo_test.go.txt"}}}}' "$PWD" "$D" > "$T/o.json"
go test -overlay "$T/o.json" -run TestZZDemo -count=1 ./{pkg}
'''
