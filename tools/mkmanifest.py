#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NOTE = ('Bounded: every symbolic path of the real code within the bounds of its scenarios (listed in evidence and DESIGN.md) is '
        'decided by z3; arithmetic is exact rational unless a scenario says IEEE doubles; numpy, csv and other library calls are '
        'models, validated by replaying solver witnesses on the real code in every run. Nothing is claimed outside the bounds.')
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, 'checks', i + '.py')):
        checks.append({'property': i, 'quick_cmd': './run.py ' + i, 'thorough_cmd': './run.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'symbolic execution of the real Python source with z3 deciding every branch and assertion; counterexamples replayed on the real code',
                       'level': 'model_checking', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './run.py --check-setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
