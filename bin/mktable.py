#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and
the list of ids known to be missed (none unless given as arguments)."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(sys.argv[1:])
rows = ['## Planted bugs', '',
        'Each was made from a property and the code, confirmed to build, to pass the stable tests and to fail its demonstration,',
        'and then run against the check of its property (quick tier).', '',
        '| id | check | needs | result |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), 'missed' if i in missed else 'caught'))
p = V + '/DESIGN.md'
s = open(p).read()
h = '## Planted bugs'
if h in s:
    a = s.index(h)
    b = s.find('\n## ', a + 5)
    s = s[:a] + '\n'.join(rows) + '\n' + (s[b:] if b >= 0 else '')
else:
    s = s.rstrip('\n') + '\n\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
