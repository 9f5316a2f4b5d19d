"""Replays inputs on the real code: python -m vp.concrete TREE CHECK TIER < jobs.

Reads one JSON list of {scen, values}; writes one JSON result per line."""
import importlib.util
import json
import os
import signal
import sys
import warnings


class Timeout(BaseException):
    pass


def load_check(cid):
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks', cid + '.py')
    spec = importlib.util.spec_from_file_location('check_' + cid, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def run_one(sc, values, tier, limit):
    from vp import harness
    H = harness.ConcH(sc, values, tier)
    cwd = os.getcwd()

    def boom(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, boom)
    signal.alarm(limit)
    out = {'status': 'ok', 'failures': [], 'error': None}
    try:
        sc['body'](H)
    except harness.Stop:
        out['status'] = 'assume'
    except Timeout:
        out['status'] = 'timeout'
    except Exception as x:
        import traceback
        tb = traceback.extract_tb(x.__traceback__)
        out['status'] = 'exception'
        out['error'] = '%s: %s at %s:%s' % (type(x).__name__, str(x)[:300], os.path.basename(tb[-1].filename), tb[-1].lineno)
        out['in_code'] = any(not f.filename.startswith('/verif') and 'checks' not in f.filename for f in tb[1:])
    finally:
        signal.alarm(0)
        H.cleanup()
        os.chdir(cwd)
    out['failures'] = sorted(set(H.failures))
    out['covered'] = H.covered
    out['checks'] = sum(H.labels.values())
    return out


def main():
    tree, cid, tier = sys.argv[1:4]
    limit = int(os.environ.get('VP_LIMIT', '30'))
    sys.path.insert(0, tree)
    warnings.simplefilter('ignore')
    jobs = json.load(sys.stdin)
    real = os.fdopen(os.dup(1), 'w')
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    import numpy
    numpy.seterr(all='ignore')
    import logging
    logging.disable(logging.CRITICAL)
    m = load_check(cid)
    scs = dict((s['name'], s) for s in m.scenarios(tier))
    for j in jobs:
        try:
            r = run_one(scs[j['scen']], j['values'], tier, limit)
        except KeyError as x:
            r = {'status': 'error', 'error': 'KeyError %s' % x, 'failures': []}
        real.write(json.dumps(r) + '\n')
        real.flush()


if __name__ == '__main__':
    main()
