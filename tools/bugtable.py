"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json ("caught": optional remark)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
i = s.index('| bug | property')
rows = []
for b in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', b, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'], m.get('caught', m['property'])))
open(p, 'w').write(s[:i] + '| bug | property | needs | caught by |\n|-----|----------|-------|-----------|\n' + '\n'.join(rows) + '\n')
