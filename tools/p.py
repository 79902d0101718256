"""Helper to (re)write tools/props/<ID>.json:  P(id, title, statement, over, text, why, files, mechanism, note)."""
import json
import os
TECH = 'TLA+ specification checked with TLC; TLC behaviours replayed into the code and recorded events validated by TLC'


def P(id, title, statement, over, text, why, files, mech, note, tech=TECH):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None),
             check=dict(technique=tech, note=note))
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props', id + '.json')
    json.dump(d, open(p, 'w', encoding='utf-8'), ensure_ascii=False, indent=1)
