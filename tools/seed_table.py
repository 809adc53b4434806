#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
star = {
 'c10-polygon-px': 'polygons of repeated points in every unit',
 'c24-chunk-seek': 'length fields around wrap-around values',
 'c07-justify-trailing': 'texts with leading, trailing and repeated spaces',
 'c01-indexed-alpha': 'every kind of picture, indexed look-up typed',
}
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'missed.json')
if os.path.exists(extra): star.update(json.load(open(extra)))
out = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, 'meta.json')))
    s = '* (%s)' % star[d] if d in star else ''
    n = m['needs'].replace('\n', ' ').replace('|', '/')
    out.append('| %s | %s | %s | %s%s |' % (d, m['property'], n, m['property'], s))
f = os.path.join(root, '..', 'DESIGN.md')
t = open(f).read()
a, b = '<!-- table: tools/seed_table.py -->\n', '<!-- end -->'
i, j = t.index(a) + len(a), t.index(b)
open(f, 'w').write(t[:i] + '\n'.join(out) + '\n' + t[j:])
