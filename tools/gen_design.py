#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from design.in.md, known-findings.txt, seeded/ and tools/caught.json."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
t = open(f'{root}/tools/design.in.md').read()
f = []
for l in open(f'{root}/known-findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        f.append(f'* **{m[1]}** `{m[2]}`: {m[3]}')
    m = re.match(r'KNOWN property=(\S+) key=(\S+) (.*)', l)
    if m:
        f.append(f'* **{m[1]}** (not repaired): {m[3]}')
caught = json.load(open(f'{root}/tools/caught.json'))
rows = ['| bug | property | needs | caught |', '|---|---|---|---|']
for d in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, '?')} |")
t = t.replace('FINDINGS', '\n'.join(f)).replace('BUGTABLE', '\n'.join(rows))
mp = f'{root}/tools/mutants.md'
t = t.replace('MUTANTS', open(mp).read() if os.path.exists(mp) else '')
open(f'{root}/DESIGN.md', 'w').write(t)
