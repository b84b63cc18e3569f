"""Refresh the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set()
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, b)))
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'], 'nothing yet' if b in MISSED else m['property'] + ' quick'))
p = V + '/DESIGN.md'
s = open(p).read()
i = s.index('## Planted bugs')
head = s[i:].split('\n\n')[:2]
s = s[:i] + '\n\n'.join(head) + '\n\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
