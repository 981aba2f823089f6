"""Writes the table of planted bugs at the end of DESIGN.md."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(ROOT, 'seeded')
got = json.load(open(os.path.join(ROOT, 'tools', 'seeded.json')))
rows = ['| bug | property | what it breaks | quick checks, seed 1 |',
        '|---|---|---|---|']
for i in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, i, 'meta.json')))
    r = {k: v for k, v in got.get(i, {}).items() if k != 'tests'}
    res = ', '.join('%s %s' % kv for kv in sorted(r.items()))
    rows.append('| %s | %s | %s | %s |' % (
        i, m['property'], m['what_it_breaks'].replace('|', '/'), res))
f = os.path.join(ROOT, 'DESIGN.md')
t = open(f).read()
mark = '<!-- table -->'
t = t.split(mark)[0].rstrip() + '\n\n' + mark + '\n' + '\n'.join(rows) + '\n'
open(f, 'w').write(t)
