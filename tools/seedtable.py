#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set(os.environ.get('MISSED', '').split())
f = os.path.join(root, 'DESIGN.md')
text = open(f, encoding='utf-8').read()
head = text.split('<!-- seeds -->')[0] if '<!-- seeds -->' in text else text.split('@@SEEDS@@')[0]
rows = ['<!-- seeds -->', '', '| planted bug | needs | caught by |', '|---|---|---|']
for m in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    d, i = json.load(open(m, encoding='utf-8')), m.split('/')[-2]
    rows.append(f"| {i} | {d['needs']} | {'missed' if i in MISSED else d['property']} |")
open(f, 'w', encoding='utf-8').write(head + '\n'.join(rows) + '\n')
