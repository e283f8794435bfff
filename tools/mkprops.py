#!/usr/bin/env python3
# Regenerates properties.jsonl from this table (kept in one place so that titles/ids stay in step).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,obs):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs)))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'props.py')).read())
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
