#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md between the two markers, from seeded/*/meta.json and tools/caught.json."""
import json, glob, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(H + '/tools/caught.json')) if os.path.exists(H + '/tools/caught.json') else {}
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = d.split('/')[-2]
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {', '.join(caught.get(i, [m['property']])) or 'missed'} |")
p = H + '/DESIGN.md'; s = open(p).read()
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->', s, flags=re.S)
open(p, 'w').write(s)
