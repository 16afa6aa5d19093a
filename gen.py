#!/usr/bin/env python3
"""regenerate properties.jsonl and MANIFEST.json from va/props.py and the
registered rules"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from va import core, props

core.load_rules()
HERE = os.path.dirname(os.path.abspath(__file__))
lines, checks, na = [], [], []


def js(i, d):
    return {'id': i, 'title': d['title'], 'statement': d['statement'],
            'quantifier': {'over': d['over'], 'text': d['qtext']},
            'why_tests_cant': d['why'],
            'anchors': {'files': d['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in d['mech']]}}


for d in props.PROPS:
    i = d['id']
    assert len(d['title']) <= 80, d['title']
    rules = core.RULES.get(i)
    lines.append(js(i, d))
    if not rules:
        na.append({'property': i, 'reason': 'No rule of the analysis decides it yet.'})
        continue
    cmd = 'python3 check.py --property %s --tier %%s' % i
    checks.append({
        'property': i, 'quick_cmd': cmd % 'quick', 'thorough_cmd': cmd % 'thorough',
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'static analysis: %s' % d.get('tech', 'path-sensitive interprocedural '
                                                    'value-provenance dataflow over the clang AST'),
        'level': 'other',
        'level_note': 'Rules: ' + '; '.join('%s - %s' % (r, t) for r, t, _ in rules) +
        ' Loops are abstracted by a generic iteration and library calls by '
        'their documented behaviour; unrecognised constructs are undecided.'})
for i, d in props.NA.items():
    lines.append(js(i, d))
    na.append({'property': i, 'reason': d['reason']})
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for l in lines:
        f.write(json.dumps(l) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 -m va.facts', 'checks': checks,
     'not_applicable': na}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
