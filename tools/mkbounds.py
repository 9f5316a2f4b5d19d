#!/opt/venv/bin/python
"""Writes BOUNDS.md: the scenarios of every check with their bounds, from the checks themselves."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PY = '/opt/venv/bin/python'
CODE = '''
import sys, json
sys.path.insert(0, %r)
from vp.concrete import load_check
out = {}
for i in sys.argv[1:]:
    m = load_check(i)
    out[i] = [list(getattr(m, 'ASSUMPTIONS', []))] + [[(s['name'], s['bounds']) for s in m.scenarios(t)] for t in ('quick', 'thorough')]
print(json.dumps(out))
'''
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
titles = dict((d['id'], d['title']) for d in map(json.loads, open(os.path.join(V, 'properties.jsonl'))))
py = sys.argv[1] if len(sys.argv) > 1 else sys.executable
r = subprocess.run([py, '-c', CODE % V] + ids, capture_output=True, text=True)
if r.returncode:
    sys.exit(r.stderr)
d = json.loads(r.stdout)
w = ['# Bounds of every check', '', 'Written by tools/mkbounds.py from the checks. A scenario with no mark is in both tiers, (q) only in',
     'the quick and (t) only in the thorough one.', '']
for i in ids:
    a, q, t = d[i]
    w += ['## %s: %s' % (i, titles[i]), '']
    if a:
        w += ['Assumed: ' + '; '.join(a) + '.', '']
    q, t = [tuple(x) for x in q], [tuple(x) for x in t]
    for s in q + [x for x in t if x not in q]:
        m = '' if s in q and s in t else ' (q)' if s in q else ' (t)'
        w.append('- `%s`%s %s' % (s[0], m, s[1]))
    w.append('')
open(os.path.join(V, 'BOUNDS.md'), 'w').write('\n'.join(w))
