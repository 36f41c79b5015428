#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'src/main/cpp/Balau/'
PROPS = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, level='model_checking', note='', state=(), observe=(), claimed=True, reason=''):
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                       anchors=dict(files=[B + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech],
                                    state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                    observe_at=list(observe), hook_needed=None)),
                  technique, level, note, claimed, reason))


exec(open(os.path.join(V, 'lib', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p[0]) + '\n')
m = dict(version=1, setup_cmd='bash bin/setup.sh', checks=[], not_applicable=[],
         notes='All checks are TLA+/TLC based: see DESIGN.md. No hooks in /repo are used: every harness drives the public API.')
for p, technique, level, note, claimed, reason in PROPS:
    if claimed:
        m['checks'].append(dict(property=p['id'], quick_cmd='VERIF_TIER=quick python3 bin/check.py ' + p['id'],
                                thorough_cmd='VERIF_TIER=thorough python3 bin/check.py ' + p['id'],
                                technique=technique, level=level, level_note=note))
    else:
        m['not_applicable'].append(dict(property=p['id'], reason=reason))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
