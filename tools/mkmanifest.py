#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for each property which has tests in the harness."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
have = set()
for f in glob.glob(V + '/harness/*/*_test.go'):
    have |= set(re.findall(r'^func Test(C\d\d)_', open(f).read(), re.M))
tech = json.load(open(V + '/tools/techniques.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        t = tech.get(i, {})
        checks.append(dict(property=i, quick_cmd='bin/check %s quick' % i, thorough_cmd='bin/check %s thorough' % i,
                           technique=t.get('technique', 'property-based testing'), level='exploration',
                           level_note=t.get('note', 'Random exploration: nothing is shown for the cases that were not generated.')))
    else:
        na.append(dict(property=i, reason='no check yet'))
json.dump(dict(version=1, setup_cmd='bin/check setup', checks=checks, not_applicable=na,
               notes='See DESIGN.md. A replay file is run again with: bin/check replay FILE'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
