#!/usr/bin/env python3
"""Writes DESIGN.md: the fixed text of tools/design.md with the tables of harnesses and of planted bugs filled in."""
import os, re, json, glob
V = '/verif/'
props = [json.loads(l) for l in open(V+'properties.jsonl')]
text = open(V+'tools/design.md').read()
notes = {}
cur = None
for l in text[text.index('<!-- notes'):].split('\n')[1:]:
    m = re.match(r'(C\d\d): (.*)', l)
    if m:
        cur = m.group(1); notes[cur] = m.group(2)
    elif l.startswith('-->'):
        break
    elif cur and l.strip():
        notes[cur] += ' ' + l.strip()
text = text[:text.index('<!-- notes')]
out = []
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in notes:
        out.append(notes[i] + '\n')
    for f in sorted(glob.glob(V+'harness/%s/*.go' % i.lower())):
        src = open(f).read()
        for m in re.finditer(r'((?://[^\n]*\n)+)func (Verif_\w+)', src):
            doc = [l[2:].strip() for l in m.group(1).strip().split('\n')]
            head = ' '.join(l for l in doc if not l.startswith('verif:') and l)
            head = re.sub(r'^Verif_\w+: ', '', head)
            b = [l[len('verif:bounds '):] for l in doc if l.startswith('verif:bounds ')]
            out.append('- `%s` (%s): %s *Bounds:* %s.' % (m.group(2), os.path.relpath(f, V), head, b[0].rstrip('.') if b else ''))
    out.append('')
text = text.replace('@PROPERTIES@', '\n'.join(out))
rows = []
for d in sorted(glob.glob(V+'seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), m.get('caught_by', '')))
text = text.replace('@SEEDS@', '\n'.join(rows))
open(V+'DESIGN.md', 'w').write(text)
