#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = json.load(open(V + '/tools/missed.json'))
rows = ['| bug | needs | caught by | first |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    i = d.split('/')[-2]
    rows.append('| %s | %s | %s | %s |' % (i, m['needs'].replace('|', '/'), m['property'], 'missed; added: ' + missed[i] if i in missed else 'caught'))
t = open(V + '/DESIGN.md').read()
head = t.split('SEEDTABLE')[0].split('<!-- seeds -->')[0]
open(V + '/DESIGN.md', 'w').write(head + '<!-- seeds -->\n' + '\n'.join(rows) + '\n')
