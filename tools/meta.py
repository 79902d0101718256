#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props/*.json (one file per property)."""
import glob
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(here, 'props', '*.json'))):
    p = json.load(open(f, encoding='utf-8'))
    chk = p.pop('check')
    props.append(p)
    if chk.get('not_applicable'):
        na.append(dict(property=p['id'], reason=chk['not_applicable']))
        continue
    checks.append(dict(property=p['id'], quick_cmd=f'./check.sh {p["id"]}', thorough_cmd=f'./check.sh {p["id"]} thorough',
                       evidence_file=f'evidence/{p["id"]}.json', technique=chk['technique'], level='model_checking',
                       level_note=chk['note']))
with open(os.path.join(root, 'properties.jsonl'), 'w', encoding='utf-8') as h:
    for p in props:
        h.write(json.dumps(p, ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='Specifications (TLA+) in spec/, harness in harness/. Every check model-checks its specification with TLC, '
               'replays behaviours of it into the real code imported from /repo/src and has TLC validate the recorded '
               'events against the specification. No hooks are needed in /repo.')
with open(os.path.join(root, 'MANIFEST.json'), 'w', encoding='utf-8') as h:
    json.dump(m, h, ensure_ascii=False, indent=1)
    h.write('\n')
