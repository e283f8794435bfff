#!/bin/bash
# Runs the repository's tests on /repo and compares with the baseline.
bash /opt/vp/test.sh /tmp/basetest.json > /tmp/basetest.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/basetest.json'))
def ids(x,k):
    v=x.get(k) if isinstance(x,dict) else x
    return set(v) if v is not None else set()
bp=None
for k in b:
    if isinstance(b[k],list) and len(b[k])>300: bp=set(b[k]); print('baseline',k,len(bp))
op=None
for k in o:
    if isinstance(o[k],list) and 'pass' in k.lower(): op=set(o[k]); print('now',k,len(op))
print('MISSING', sorted(bp-op)[:20] if bp and op else (list(b),list(o)))
P
