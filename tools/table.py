"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'].replace('|', '/')))
s = open(V + '/DESIGN.md').read()
s = s[:s.index('| Planted bug |')] + '| Planted bug | Caught by | Needs |\n|---|---|---|\n' + ''.join(rows)
open(V + '/DESIGN.md', 'w').write(s)
