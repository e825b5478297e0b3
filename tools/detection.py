#!/usr/bin/env python3
"""tools/detection.py: rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (stars are kept)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V+'/DESIGN.md').read()
stars = set(re.findall(r'^\| C\d\d \| ([\w-]+)\* \|', d, re.M))
rows = []
for s in sorted(os.listdir(V+'/seeded')):
    m = json.load(open(f'{V}/seeded/{s}/meta.json'))
    rows.append((m['property'], s, m['needs']))
t = '| property | planted bug | what it needs to show |\n|---|---|---|\n' + ''.join(f"| {p} | {s}{'*' if s in stars else ''} | {n} |\n" for p, s, n in sorted(rows))
a = d.index('| property | planted bug'); b = d.index('\n\n', a)
open(V+'/DESIGN.md', 'w').write(d[:a]+t.rstrip('\n')+d[b:])
