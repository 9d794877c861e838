#!/usr/bin/env python3
"""Development aid: writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}


def prop(id, title, statement, over, qtext, why, files, mech, note=None, na=None, state=None, level='proof'):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a}, note, level))
    if na:
        NA[id] = na


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())
TECH = 'contract-based deductive verification of the LLVM IR clang extracts from the real functions (irv, z3/cvc5)'
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + '\n')
checks = []
for p, note, level in P:
    if p['id'] in NA:
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + p['id'], 'technique': TECH, 'level': level, 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -m compileall -q irv specs check.py && command -v clang++ opt g++ z3 cvc5 >/dev/null || command -v clang++-18 >/dev/null', 'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()]}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks')
