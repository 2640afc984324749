#!/usr/bin/env python3
"""Renews the table of planted bugs at the end of DESIGN.md."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append((m['property'], d, m['needs']))
p = root + '/DESIGN.md'
t = open(p).read()
i = t.find('| check |')
if i >= 0: t = t[:i]
t = t.rstrip('\n') + '\n\n| check | caught change | what it needs |\n|---|---|---|\n'
for a, b, c in sorted(rows):
    t += f"| {a} | {b} | {' '.join(c.split()).replace('|', '\\|')} |\n"
open(p, 'w').write(t)
