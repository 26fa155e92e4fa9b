#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
p = os.path.join(V, 'tools', 'caught.txt')
if os.path.exists(p):
    for l in open(p):
        f = l.split()
        caught.setdefault(f[0], set()).update(f[1:])
rows = []
for b in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', b, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '\\|'), ' '.join(sorted(caught.get(b, []))) or '?'))
d = open(os.path.join(V, 'DESIGN.md')).read()
d = d.split('## Planted bugs')[0] + '''## Planted bugs

%d changes in `seeded/`, each confirmed to compile, pass the stable tests and fail its
demonstration; "caught by" lists the checks that were seen to report it (its own
property's check was always run; others only now and then).

| bug | property | needs | caught by |
|---|---|---|---|
%s
''' % (len(rows), '\n'.join(rows))
open(os.path.join(V, 'DESIGN.md'), 'w').write(d)
