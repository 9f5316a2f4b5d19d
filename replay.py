#!/opt/venv/bin/python
"""replay.py FILE: runs a recorded counterexample on /repo's code; exit 1 if it fails there."""
import json
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import loader, runner

d = json.load(open(sys.argv[1]))
w = tempfile.mkdtemp(prefix='vpw-')
try:
    t = os.path.join(w, 'tree')
    os.makedirs(t)
    loader.build_tree(t)
    r = runner.replay(t, d['property'], d['tier'], [(d['scenario'], d['values'])], w)[0]
finally:
    shutil.rmtree(w, ignore_errors=True)
print(json.dumps({'scenario': d['scenario'], 'inputs': d['values'], 'result': r}, indent=1))
sys.exit(1 if runner.bad(r) else 0)
