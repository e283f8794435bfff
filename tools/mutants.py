#!/usr/bin/env python3
"""Tries mutants (prop, file, old, new) of a Python file in a scratch copy of /repo and tells which checks catch them.

usage: mutants.py FILE [-t] [-only REGEX]   (-t: run the repository's tests on each mutant as well)"""
import sys, subprocess, os, shutil, re, runpy
f = sys.argv[1]
ms = runpy.run_path(f)['M']
tests = '-t' in sys.argv
only = sys.argv[sys.argv.index('-only')+1] if '-only' in sys.argv else '.'
d = os.environ.get('MUTREPO', '/tmp/mutrepo')
if os.path.exists(d):
    shutil.rmtree(d)
subprocess.run(['cp', '-a', os.environ.get('VERIF_REPO', '/repo'), d], check=True)
for i, m in enumerate(ms):
    prop, fn, old, new = m[:4]
    name = '%d %s %s: %s' % (i, prop, fn, new.strip().replace('\n', ' ; ')[:90])
    if not re.search(only, name):
        continue
    p = os.path.join(d, fn)
    s = open(p).read()
    # further pairs of texts in the same file: (prop, file, old, new, count, [(old, new), ...])
    more = m[5] if len(m) > 5 else []
    if s.count(old) < 1 or any(s.count(o) < 1 for o, _ in more):
        print('NOMATCH', name); continue
    n = m[4] if len(m) > 4 else 1
    t = s.replace(old, new, n)
    for o, r in more:
        t = t.replace(o, r, 1)
    open(p, 'w').write(t)
    try:
        b = subprocess.run('. /opt/vp/env.sh; go build ./... 2>&1 | head -5', shell=True, cwd=d, capture_output=True, text=True)
        if b.stdout.strip():
            print('NOBUILD', name, b.stdout); continue
        t = ''
        if tests:
            r = subprocess.run('. /opt/vp/env.sh; timeout 300 go test ./... 2>&1 | grep -E "^(FAIL|---|panic)" | head -3', shell=True, cwd=d, capture_output=True, text=True)
            t = ' TESTS-FAIL' if r.stdout.strip() else ' tests-pass'
        r = subprocess.run('. /opt/vp/env.sh; VERIF_REPO=%s timeout 900 /verif/check.sh %s quick 2>&1' % (d, prop), shell=True, cwd='/verif', capture_output=True, text=True)
        v = [l for l in r.stdout.split('\n') if l.startswith('  Verif_')]
        last = r.stdout.strip().split('\n')[-1]
        print('CAUGHT ' if r.returncode == 1 else 'MISSED%d' % r.returncode, name, t, '|', v[0].strip() if v else '', '|', last[-60:], flush=True)
        if r.returncode != 1 or '-v' in sys.argv:
            for l in r.stdout.split('\n'):
                if l.startswith('NOTE'):
                    print('     ', l[:300])
    finally:
        open(p, 'w').write(s)
shutil.rmtree(d)
