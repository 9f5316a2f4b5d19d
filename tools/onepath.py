#!/opt/venv/bin/python
"""onepath.py CHECK SCENARIO [TIER]: run the first path of a scenario in this process (debugging)."""
import os, sys, tempfile, shutil, warnings
os.environ['PYTHONHASHSEED'] = '0'
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from vp import runner, core
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
d = tempfile.mkdtemp()
try:
    from vp import loader
    tree = os.path.join(d, 'tree')
    loader.build_tree(tree)
    sc = [s for s in runner.load_check(sys.argv[1]).scenarios((sys.argv + ['quick'])[3]) if s['name'] == sys.argv[2]][0]
    sc['_need'] = 0
    todo = [[]]
    while todo:
        rec, more = runner.one_path(sc, todo.pop(), tree, 'quick', None, 600)
        todo += more
        if rec['status'] != 'infeasible':
            break
    print({k: v for k, v in rec.items() if k != 'functions'})
finally:
    shutil.rmtree(d)
