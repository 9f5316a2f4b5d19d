#!/opt/venv/bin/python
"""run.py ID [--tier quick|thorough] [-v] [--only SCEN] : decide one property."""
import os
import sys

os.environ['PYTHONHASHSEED'] = '0'
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    verbose, only, ids, budget = False, [], [], None
    while a:
        x = a.pop(0)
        if x == '--tier':
            tier = a.pop(0)
        elif x == '-v':
            verbose = True
        elif x == '--only':
            only.append(a.pop(0))
        elif x == '--budget':
            budget = float(a.pop(0))
        else:
            ids.append(x)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from vp import runner
    if '--check-setup' in sys.argv:
        # nothing to build: the framework is Python; make sure the solver answers
        s = runner.core.z3.Solver()
        s.add(runner.core.z3.Int('x') > 1)
        print('setup: %s, z3 %s' % (s.check(), runner.core.z3.get_version_string()))
        sys.exit(0)
    rc = 0
    for i in ids:
        r = runner.run(i, tier, seed, verbose=verbose, only=only or None, budget=budget)
        rc = rc or r
    sys.exit(rc)


if __name__ == '__main__':
    if os.environ.get('VP_REEXEC') != '1':
        os.environ['VP_REEXEC'] = '1'
        os.environ['OMP_NUM_THREADS'] = os.environ['OPENBLAS_NUM_THREADS'] = '1'
        os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
    main()
