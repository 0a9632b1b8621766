#!/usr/bin/env python3
"""Regenerates the table of planted bugs at the end of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = V + '/DESIGN.md'
s = open(D).read()
mark = '<!-- planted bugs: generated by tools/mkdesign.py -->'
rows = ['| change | property | needs | breaks |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    d = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    rows.append('| %s | %s | %s | %s |' % (i, d['property'], d['needs'], d['what_it_breaks']))
open(D, 'w').write(s.split(mark)[0] + mark + '\n\n' + '\n'.join(rows) + '\n')
print(len(rows) - 2, 'planted bugs')
