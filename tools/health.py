#!/usr/bin/env python3
"""Lists, from the evidence of the last runs, how long each check took and where its exploration was reduced and why."""
import json, glob, os
for f in sorted(glob.glob('/verif/evidence/C*.json')):
    d = json.load(open(f)); c = d['coverage']
    print(os.path.basename(f)[:-5], '%.0fs' % d['wall_s'], 'paths=%s' % c['states'], 'exhaustive=%s' % c['exhaustive_within_bounds'],
          'unsupported=%s' % c['unsupported_paths'], 'mismatches=%s' % c['native_mismatches'], 'violations=%s' % d['violations'])
    for h in c['harnesses']:
        if not h['exhaustive_within_bounds']:
            print('    ', h['harness'], h.get('wall_s'))
    for x in c['reduced_bounds_and_caveats'] or []:
        print('    ', str(x)[:300])
