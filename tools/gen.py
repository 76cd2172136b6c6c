#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py; a property is claimed when its rule file exists."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import P

NOTE = ('Sound refutation, bounded coverage: a violation is reported only when an abstract path of the current source is shown to break the '
        'rule for a consistent valuation; obligations the abstraction cannot decide are counted in the evidence and stay quiet. '
        'Covers every value of the quantified inputs for the enumerated declarations; trusts the abstract model of the Python '
        'language and of struct, io and bytes built-ins.')
checks, na = [], []
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
            continue
        assert os.path.exists(os.path.join(ROOT, 'sa', 'rules', p['id'] + '.py')), p['id']
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                       'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                       'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['note'] or NOTE})
json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the analyser reads the source under /repo/src on every run and never imports or runs it.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
