"""Explores a check's scenarios in parallel, replays what the solver finds on
the real code, writes evidence."""
import json
import multiprocessing as mp
import os
import queue
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

from . import core, loader, harness
from .concrete import load_check

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLICE = 2.5
PY = sys.executable


class PathTimeout(core.PathAbort):
    pass


def one_path(sc, prefix, tree, tier, deadline, path_limit):
    """Runs one path; returns (record, new prefixes)."""
    eng = core.Engine(prefix, deadline=deadline)
    core.set_engine(eng)
    H = harness.SymH(eng, sc, tree, tier)
    rec = {'status': 'done', 'err': None, 'models': None}
    cwd = os.getcwd()

    fired = []

    def boom(*a):
        fired.append(1)
        raise PathTimeout()
    signal.signal(signal.SIGALRM, boom)
    # again and again: an exception may be lost in a callback
    signal.setitimer(signal.ITIMER_REAL, path_limit, 2)
    try:
        sc['body'](H)
    except core.Infeasible:
        rec['status'] = 'infeasible'
    except core.Budget:
        rec['status'] = 'budget'
    except PathTimeout:
        rec['status'] = 'timeout'
    except core.PathAbort:
        rec['status'] = 'failed'
    except (core.Unsupported, core.z3.Z3Exception, RecursionError, MemoryError) as x:
        rec['status'] = 'timeout' if fired else 'gap'
        rec['err'] = '%s: %s' % (type(x).__name__, str(x)[:300]) + _where(x)
    except Exception as x:
        rec['status'] = 'timeout' if fired else 'exception'
        rec['err'] = '%s: %s' % (type(x).__name__, str(x)[:300]) + _where(x)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(cwd)
    if rec['status'] == 'timeout':
        rec['err'] = None
    del fired[:]
    try:
        signal.setitimer(signal.ITIMER_REAL, 60, 2)
        if rec['status'] in ('gap', 'exception', 'timeout', 'done'):
            rec['conc'] = any(k.startswith('concretised') for k in eng.notes)
            if rec['status'] != 'done' or rec['conc'] or sc['_need'] > 0:
                try:
                    if eng.getmodel() is not None:
                        rec['models'] = eng.nice_models([])
                except core.PathAbort:
                    if rec['status'] != 'done':
                        rec['status'] = 'infeasible'
    except (PathTimeout, Exception):
        if not fired:
            raise
        rec['models'] = None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    H.cleanup()
    rec.update(candidates=H.candidates, covered=H.covered, checks=H.nchecks, discharged=H.discharged,
               labels=H.labels, inconclusive=H.inconclusive, queries=eng.queries, qtime=eng.qtime,
               unknown=eng.unknown, decisions=len(eng.dec), forks=eng.forks, notes=eng.notes,
               nonlinear=eng.nonlinear, functions=sorted(H.reg.entered), npc=eng.npc)
    todo = eng.todo
    core.set_engine(None)
    return rec, todo


def _where(x):
    tb = traceback.extract_tb(x.__traceback__)
    own = [f for f in tb if '/vp/' not in f.filename]
    f = own[-1] if own else tb[-1]
    return ' at %s:%s (%s:%s)' % (os.path.basename(f.filename), f.lineno,
                                  os.path.basename(tb[-1].filename), tb[-1].lineno)


_W = {}


def winit(cid, tier, tree, scratch):
    os.environ['VP_SCRATCH'] = scratch
    _W['scs'] = dict((s['name'], s) for s in load_check(cid).scenarios(tier))
    _W['tree'], _W['tier'] = tree, tier
    sys.setrecursionlimit(20000)
    warnings.simplefilter('ignore')


def work(args):
    """Depth-first exploration from a prefix for a time slice."""
    name, prefix, need, deadline, path_limit = args
    sc = _W['scs'][name]
    stack = [prefix]
    recs = []
    t0 = time.time()
    n = 0
    while stack:
        p = stack.pop()
        sc['_need'] = need - n
        try:
            rec, todo = one_path(sc, p, _W['tree'], _W['tier'], deadline, path_limit)
        except (core.PathAbort, Exception):
            signal.setitimer(signal.ITIMER_REAL, 0)
            rec, todo = {'status': 'engine', 'err': traceback.format_exc()[-1500:]}, []
        if rec.get('models') and rec['status'] == 'done':
            n += 1
        recs.append(rec)
        stack.extend(todo)
        if time.time() - t0 > SLICE or time.time() > deadline or rec.get('candidates') or rec['status'] == 'exception':
            break
    return name, recs, stack


def replay(tree, cid, tier, jobs, scratch, limit=30):
    """Runs jobs [(scenario, values)] on the real code."""
    if not jobs:
        return []
    env = dict(os.environ, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE='1', VP_SCRATCH=scratch,
               PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VP_LIMIT=str(limit))
    p = subprocess.run([PY, '-m', 'vp.concrete', tree, cid, tier], cwd=scratch, env=env,
                       input=json.dumps([{'scen': s, 'values': v} for s, v in jobs]),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out = [json.loads(l) for l in p.stdout.splitlines() if l.startswith('{')]
    while len(out) < len(jobs):
        out.append({'status': 'error', 'error': p.stderr[-800:], 'failures': []})
    return out


def bad(r):
    """Does a replay result show a violation?"""
    return bool(r['failures']) or r['status'] in ('exception', 'timeout')


def run(cid, tier, seed=1, budget=None, procs=8, verbose=False, only=None):
    t0 = time.time()
    m = load_check(cid)
    scratch = tempfile.mkdtemp(prefix='vpw-')
    try:
        return _run(cid, tier, seed, budget, procs, verbose, only, t0, m, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(cid, tier, seed, budget, procs, verbose, only, t0, m, scratch):
    tree = os.path.join(scratch, 'tree')
    os.makedirs(tree)
    loader.build_tree(tree)
    scs = m.scenarios(tier)
    if only:
        scs = [s for s in scs if s['name'] in only]
    budget = budget or (420 if tier == 'quick' else 800)
    deadline = t0 + budget
    path_limit = 90 if tier == 'quick' else 300
    st = dict((s['name'], {'paths': 0, 'infeasible': 0, 'decisions': 0, 'covered': {}, 'labels': {}, 'checks': 0,
                           'discharged': 0, 'gaps': {}, 'wit': [], 'left': 0, 'unknown': 0, 'concretised': 0,
                           'notes': {}, 'inconclusive': {}, 'cpu': 0.0}) for s in scs)
    tot = {'queries': 0, 'qtime': 0.0, 'unknown': 0, 'nonlinear': 0}
    functions = set()
    viol, spurious, known, errors = [], [], [], []
    seen_labels = set()
    bysc = dict((s['name'], s) for s in scs)
    todo = [(s['name'], []) for s in reversed(scs)]
    pending = []
    validated = 0
    samples = []
    gapjobs = []
    ctx = mp.get_context('fork')
    pool = ctx.Pool(procs, winit, (cid, tier, tree, scratch), maxtasksperchild=200)
    stop = False
    try:
        while (todo or pending) and not stop:
            while todo and len(pending) < procs * 2 and time.time() < deadline:
                name, pre = todo.pop()
                need = max(0, bysc[name]['witnesses'] - len(st[name]['wit']))
                pending.append(pool.apply_async(work, ((name, pre, min(need, 2), deadline, path_limit),)))
            if time.time() >= deadline and todo:
                for name, pre in todo:
                    st[name]['left'] += 1
                todo = []
            done = [p for p in pending if p.ready()]
            if not done:
                time.sleep(0.01)
                if time.time() > deadline + 2 * path_limit + 30:
                    errors.append('workers do not answer')
                    for sc in scs:
                        st[sc['name']]['left'] += 1
                    break
                continue
            for p in done:
                pending.remove(p)
                try:
                    name, recs, rest = p.get()
                except (core.PathAbort, Exception) as x:
                    errors.append('a worker failed: %s' % x)
                    for sc in scs:
                        st[sc['name']]['left'] += 1
                    continue
                s = st[name]
                if time.time() < deadline:
                    todo.extend((name, r) for r in rest)
                else:
                    s['left'] += len(rest)
                for r in recs:
                    if r['status'] == 'engine':
                        errors.append(name + ': ' + r['err'])
                        s['gaps']['error'] = s['gaps'].get('error', 0) + 1
                        continue
                    merge(s, r, tot, functions)
                    for label, models in r['candidates']:
                        if (name, label) in seen_labels:
                            continue
                        ok = confirm(tree, cid, tier, name, label, models, scratch)
                        if ok is not None:
                            seen_labels.add((name, label))
                            viol.append((name, label, ok[0], ok[1]))
                            stop = True
                        else:
                            spurious.append((name, label, models[0][1] if models else None, r.get('conc')))
                    if r['status'] in ('exception', 'gap', 'timeout'):
                        lab = r['status'] + ' ' + (r['err'] or '')
                        s['gaps'][lab] = s['gaps'].get(lab, 0) + 1
                        if r['models'] and s['gaps'][lab] <= 3:
                            ok = confirm(tree, cid, tier, name, None, r['models'], scratch)
                            if ok is not None:
                                viol.append((name, 'no exception', ok[0], ok[1]))
                                stop = True
                    elif r['models'] and r['status'] == 'done':
                        if len(s['wit']) < bysc[name]['witnesses'] or r['conc']:
                            s['wit'].append((r['models'][0], r['conc']))
                if verbose and recs:
                    print('  %-28s +%d paths, todo %d, t=%.0f' % (name, len(recs), len(todo), time.time() - t0), file=sys.stderr)
        if not stop:
            pool.close()
    finally:
        pool.terminate()
        pool.join()
    # the paths' own inputs, run on the real code: validates the encoding
    disagree = []
    jobs = [(n, mv[1], mv[0], c) for n in st for (mv, c) in st[n]['wit']]
    for (n, v, full, c), r in zip(jobs, replay(tree, cid, tier, [(j[0], j[1]) for j in jobs], scratch)):
        if bad(r):
            if full and not viol:
                r2 = replay(tree, cid, tier, [(n, v)], scratch)[0]
                if bad(r2):
                    viol.append((n, (r2['failures'] or [r2['error'] or r2['status']])[0], v, r2))
                    continue
            disagree.append((n, v, r))
        elif r['status'] == 'ok':
            validated += 1
            if len(samples) < 6:
                samples.append({'scenario': n, 'inputs': v, 'real_run': 'all %d checks held' % r.get('checks', 0)})
        elif r['status'] == 'error':
            errors.append('replay of %s: %s' % (n, r['error']))
        else:
            disagree.append((n, v, r))
    return report(cid, tier, seed, t0, m, scs, st, tot, functions, viol, spurious, errors, disagree, validated,
                  samples, verbose, only)


def merge(s, r, tot, functions):
    if r['status'] == 'infeasible':
        s['infeasible'] += 1
    elif r['status'] == 'budget':
        s['left'] += 1
    else:
        s['paths'] += 1
    s['decisions'] += r['decisions']
    s['checks'] += r['checks']
    s['discharged'] += r['discharged']
    s['unknown'] += r['unknown']
    for k, v in r['covered'].items():
        s['covered'][k] = s['covered'].get(k, 0) + v
    for k, v in r['labels'].items():
        s['labels'][k] = s['labels'].get(k, 0) + v
    for k, v in r['notes'].items():
        s['notes'][k] = s['notes'].get(k, 0) + v
    for k in r['inconclusive']:
        s['inconclusive'][k] = s['inconclusive'].get(k, 0) + 1
    if r.get('conc'):
        s['concretised'] += 1
    for k in ('queries', 'qtime', 'unknown', 'nonlinear'):
        tot[k] += r[k]
    functions.update(r['functions'])


def confirm(tree, cid, tier, name, label, models, scratch):
    """(values, result) when one of the models fails on the real code."""
    rs = replay(tree, cid, tier, [(name, v) for _, v in models], scratch)
    for (full, v), r in zip(models, rs):
        if bad(r) and (label is None or r['failures'] or r['status'] in ('exception', 'timeout')):
            # once more, alone, in a fresh process
            r2 = replay(tree, cid, tier, [(name, v)], scratch)[0]
            if bad(r2):
                return v, r2
    return None


def load_known():
    """known-findings.txt: lines 'known: property=<id> key=<key> <text>' and 'fixed: ...'."""
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known:'):
                d = dict(x.split('=', 1) for x in l.split()[1:3])
                out.append((d['property'], d['key'], ' '.join(l.split()[3:])))
    return out


def report(cid, tier, seed, t0, m, scs, st, tot, functions, viol, spurious, errors, disagree, validated, samples,
           verbose, only):
    code = 0
    lines = []
    known = [k for k in load_known() if k[0] == cid]
    for k in known:
        cov = sum(s['covered'].get('known:' + k[1], 0) for s in st.values())
        if cov:
            lines.append('KNOWN-FINDING: property=%s %s' % (cid, k[2]))
    real = []
    for (n, label, v, r) in viol:
        real.append((n, label, v, r))
    paths = sum(s['paths'] for s in st.values())
    left = sum(s['left'] for s in st.values())
    gaps = sum(sum(s['gaps'].values()) for s in st.values())
    inconc = sum(sum(s['inconclusive'].values()) for s in st.values())
    vac = []
    for s in scs:
        x = st[s['name']]
        if x['left'] == 0 and not real and not gaps:
            for c in s['covers']:
                if not x['covered'].get(c):
                    vac.append('%s: %s never reached' % (s['name'], c))
            if not x['paths'] or not x['checks']:
                vac.append('%s: no path reaches an assertion' % s['name'])
    if real:
        code = 1
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        for i, (n, label, v, r) in enumerate(real[:3]):
            f = os.path.join(rd, '%s-%d.json' % (cid, i))
            with open(f, 'w') as fh:
                json.dump({'property': cid, 'tier': tier, 'scenario': n, 'label': label, 'values': v, 'result': r},
                          fh, indent=1)
            lines.append('  %s: %s' % (n, label))
            lines.append('  inputs: %s' % json.dumps(v))
            lines.append('  on the real code: %s' % (r['failures'] or r['error'] or r['status']))
            lines.append('VIOLATION property=%s replay=%s' % (cid, f))
    else:
        if errors:
            # paths lost this way are counted as not explored
            code = 2 if os.environ.get('VP_STRICT') or not paths else 0
            lines += ['ERROR ' + e for e in errors[:5]]
        # a counterexample the real code does not have is the encoding's, not the code's
        hard = [x for x in spurious if not x[3]]
        if hard:
            code = code or (2 if os.environ.get('VP_STRICT') else 0)
            for x in hard[:5]:
                lines.append('NOT-REPRODUCED %s: %s with %s' % (x[0], x[1], json.dumps(x[2])))
        if vac and not hard:
            code = 2
            lines += ['VACUOUS ' + v for v in vac[:8]]
    for s in st:
        for g, n in list(st[s]['gaps'].items())[:4]:
            lines.append('  not encoded: %s: %d path(s): %s' % (s, n, g))
        for g, n in list(st[s]['inconclusive'].items())[:4]:
            lines.append('  solver gave no verdict: %s: %s (%d)' % (s, g, n))
    for n, v, r in disagree[:4]:
        lines.append('  replay differs from the encoding: %s %s %s' % (n, json.dumps(v), r['failures'] or r['error'] or r['status']))
    wall = time.time() - t0
    complete = left == 0 and gaps == 0 and inconc == 0 and not real and \
        not any(s['concretised'] for s in st.values())
    ev = {'property': cid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 2),
          'violations': len(real),
          'coverage': {
              'states': paths,
              'transitions': sum(s['decisions'] for s in st.values()),
              'traces_validated_against_impl': validated,
              'samples': samples,
              'states_are': 'symbolic paths of the real code run to the end, each standing for all inputs that take it',
              'transitions_are': 'branch decisions taken on these paths, each checked for feasibility by the solver',
              'exhaustive': bool(complete),
              'assertions_decided': sum(s['discharged'] for s in st.values()),
              'assertion_evaluations': sum(s['checks'] for s in st.values()),
              'solver_queries': tot['queries'], 'solver_time_s': round(tot['qtime'], 2),
              'solver_unknown': tot['unknown'], 'nonlinear_terms': tot['nonlinear'],
              'functions_encoded': sorted(functions),
              'paths_unexplored_prefixes': left, 'paths_not_encoded': gaps,
              'assertions_without_verdict': inconc,
              'replays_differing': len(disagree), 'counterexamples_not_reproduced': len(spurious),
              'scenarios': dict((s['name'], {
                  'bounds': s['bounds'], 'paths': st[s['name']]['paths'], 'infeasible': st[s['name']]['infeasible'],
                  'assertions': st[s['name']]['labels'], 'reached': st[s['name']]['covered'],
                  'notes': st[s['name']]['notes'], 'unexplored': st[s['name']]['left'],
                  'not_encoded': st[s['name']]['gaps']}) for s in scs)},
          'assumptions': list(getattr(m, 'ASSUMPTIONS', [])) + COMMON}
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', cid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    lines.insert(0, '%s %s: %d paths, %d assertions decided, %d queries, %.1f s solver, %d witnesses replayed, %.1f s%s' % (
        cid, tier, paths, ev['coverage']['assertions_decided'], tot['queries'], tot['qtime'], validated, wall,
        '' if complete else ' (not exhaustive: %d unexplored, %d not encoded, %d without verdict)' % (left, gaps, inconc)))
    print('\n'.join(lines))
    if verbose:
        for s in scs:
            x = st[s['name']]
            print('   %-30s paths %d inf %d checks %d cov %s notes %s' % (s['name'], x['paths'], x['infeasible'], x['checks'], x['covered'], x['notes']))
    return code


COMMON = ['floating point is modelled as exact rational arithmetic; rounding is outside the claim',
          'transcendental functions of finite-domain values are evaluated by numpy; of other values they are '
          'uninterpreted functions with sign, bound and monotonicity axioms',
          'numpy, shapely containment and mquantiles are the framework\'s models of them, validated by replaying '
          'path witnesses on the real libraries',
          'logging has empty bodies']
