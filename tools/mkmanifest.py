#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/profiles.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from profiles import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
NOTE = ('TLC generates histories from the environment specification (bounds in the evidence file); the real library '
        'executes each under full control of its notification reads, and TLC validates every recorded trace against '
        'the contract specification. Bounded exploration of the environment, exact oracle per history.')
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
                                thorough_cmd='python3 check.py %s --tier thorough' % i,
                                technique=c.get('technique', 'TLA+ environment and contract specifications; TLC-generated histories '
                                                'replayed into the real library, recorded traces validated by TLC'),
                                level='model_checking', level_note=c.get('note', NOTE)))
    else:
        m['not_applicable'].append(dict(property=i, reason='check not built yet'))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
