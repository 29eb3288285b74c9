#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set(open(V + '/tools/missed.txt').read().split())
t = '<!-- seeds -->\n| bug | needs | caught by |\n|---|---|---|\n'
for d in sorted(glob.glob(V + '/seeded/*/')):
    n = os.path.basename(d[:-1])
    m = json.load(open(d + 'meta.json'))
    t += '| %s | %s | %s%s |\n' % (n, m['needs'].replace('|', '\\|').replace('\n', ' '), m['property'], ' *' if n in MISSED else '')
t += '<!-- /seeds -->'
p = V + '/DESIGN.md'
s = open(p).read()
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
