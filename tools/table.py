#!/usr/bin/env python3
""" table.py -- write the table of seeded bugs at the end of DESIGN.md again """
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
rows = []
for d in sorted((V / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append(f'| {d.name} | {m["property"]} | {m["needs"]} |\n')
s = (V / 'DESIGN.md').read_text()
head = s[:s.index('| bug | check that catches it |')]
(V / 'DESIGN.md').write_text(head + '| bug | check that catches it | needs |\n| --- | --- | --- |\n' + ''.join(rows))
print(len(rows))
