#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed properties are those with a directory /verif/harness/<id>; NA gives reasons for the rest."""
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
NA={}
try:
    exec(open(root+'/tools/na.py').read())
except FileNotFoundError: pass
NOTE="The property's assertions are decided by Z3 for every value of the symbolic inputs within the stated bounds on every path of the real code (go/ssa of /repo's current tree, executed symbolically). Counterexamples are replayed against the native build before they are reported. Trusted: go/ssa, Z3, the engine and its models of fmt/regexp/os/encoding natives (cross-validated by native replay of sampled paths)."
checks=[];na=[]
for p in props:
    i=p['id']
    d=root+'/harness/'+i.lower()
    if i not in NA and os.path.isdir(d) and any(f.endswith('.go') for f in os.listdir(d)):
        checks.append(dict(property=i,quick_cmd=f'./check.sh {i} quick',thorough_cmd=f'./check.sh {i} thorough',evidence_file=f'evidence/{i}.json',technique='symbolic execution of go/ssa with Z3 deciding every branch and assertion, native replay of counterexamples',level='model_checking',level_note=NOTE))
    else:
        na.append(dict(property=i,reason=NA.get(i,'machinery under construction')))
json.dump(dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na),open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',[n['property'] for n in na])
