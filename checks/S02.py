"""S01 and S02: Stepp's completeness analysis."""
import sys, os
import math
from vp.harness import scen
from vp.domain import long_events

ASSUMPTIONS = ['magnitudes are picked from a stated table of values away from rounding boundaries, years are whole numbers unless stated',
               'the time step is not larger than the analysed range plus one year',
               'the second derivative test is not within 1e-5 of the tolerance']


def catalogue(H):
    p = H.p
    n = p['n']
    # 'real': years with any fraction, between a whole first and last one
    year = [H.pick('year%d' % i, p['ytab'], 'i') if 'ytab' in p else (H.real if p.get('real') and i > 1 else H.int)('year%d' % i, p['y0'], p['y1']) for i in range(n)]
    mag = [H.pick('mag%d' % i, p['mags']) for i in range(n)]
    if p.get('ends'):
        H.assume(H.And(year[0] == p['y0'], year[1] == p['y1']))
    if p.get('fixmags'):
        H.assume(H.And(mag[0] == p['mags'][0], mag[1] == p['mags'][-1]))
    if p.get('middle'):
        H.assume(H.And(mag[0] == p['mags'][1], mag[1] == p['mags'][-1], mag[2] == p['mags'][0]))
    if p.get('more'):
        ys, ms = long_events(p['more'], p['grid'], p['grid_years'])
        year, mag = year + [H.num(y) for y in ys], mag + [H.num(m) for m in ms]
    return year, mag


def run(H, year, mag, ttol, lock, **kw):
    f = H.mod('mtoolkit.scientific.completeness').stepp_analysis
    return H.call(f, H.arr([H.num(y) for y in year], 'f'), H.arr(mag), H.p['dm'], H.p['dt'], ttol, lock)


def setup(H):
    """Forks on the extremes of years and magnitudes: the grid is concrete after it."""
    year, mag = catalogue(H)
    p = H.p
    y0, y1 = (p['y0'], p['y1']) if p.get('real') else (H.concrete_int(H.min(year)), H.concrete_int(H.max(year)))
    H.assume(p['dt'] <= y1 - y0 + 1)
    r = [H.rint(m * 100) for m in mag]
    lo = H.concrete_int(H.floor(H.min(r) / 10))
    hi = -H.concrete_int(H.floor(-H.max(r) / 10))
    edges, e = [], lo / 10.0
    while e < hi / 10.0 - 1e-9 or not edges:
        edges.append(e)
        e += p['dm']
    times, t = [], p['dt']
    while t < y1 - y0 + 2:
        times.append(t)
        t += p['dt']
    return year, mag, r, y0, y1, edges, times


def params(H):
    ttol = H.real('ttol', 0.01, 1.5) if H.p.get('symtol', True) else 0.2
    lock = H.choice('lock', [True, False])
    return ttol, lock


def expected(H, year, r, y1, edges, times, ttol, lock):
    """Positions of the completeness periods, one list of (condition, position) per interval."""
    pos = []
    for j, e in enumerate(edges):
        cnt = []
        for t in times:
            c = []
            for y, m in zip(year, r):
                q = [y >= y1 - t, m >= math.ceil(round(e * 100, 4))]
                if j < len(edges) - 1:
                    q.append(m < math.ceil(round(edges[j + 1] * 100, 4)))
                c.append(H.And(*q))
            cnt.append(H.count(c))
        sig = []
        for c, t in zip(cnt, times):
            s = H.fun('sqrt', c * H.num(1.0)) / t
            sig.append(H.max([s, H.num(1e-14)]))
        lg = [H.fun('log10', s) for s in sig]
        lt = [H.fun('log10', H.num(float(t))) for t in times]
        res = [(lg[i + 1] - lg[i]) / (lt[i + 1] - lt[i]) + 0.5 for i in range(len(times) - 1)]
        change = [H.abs(res[i + 1] - res[i]) for i in range(len(res) - 1)]
        for c in change:
            H.assume(H.Or(c > ttol + 1e-5, c < ttol - 1e-5))
        test = [c > ttol for c in change]
        p, found = pos[-1] if j else 0, False
        for i, c in enumerate(test):
            p = H.ite(c, i, p)
        if j and lock:
            p = H.max([p, pos[-1]])
        pos.append(p)
    return pos


def definition(H):
    year, mag, r, y0, y1, edges, times = setup(H)
    ttol, lock = params(H)
    tab, x = run(H, year, mag, ttol, lock)
    H.check(x is None, 'no exception')
    if x is not None:
        return
    H.check(H.shape(tab) == (len(edges), 2), 'one row per magnitude interval')
    pos = expected(H, year, r, y1, edges, times, ttol, lock)
    for j, p in enumerate(pos):
        want = 0
        for i, t in enumerate(times):
            want = H.ite(p == i, t, want)
        H.eq(tab[j, 0], y1 - want, 'completeness year')
    H.cover('lock' if lock else 'no lock')


def form(H):
    year, mag, r, y0, y1, edges, times = setup(H)
    ttol, lock = params(H)
    a, b = H.arr([H.num(y) for y in year], 'f'), H.arr(mag)
    f = H.mod('mtoolkit.scientific.completeness').stepp_analysis
    tab, x = H.call(f, a, b, H.p['dm'], H.p['dt'], ttol, lock)
    H.check(x is None, 'no exception')
    if x is not None:
        return
    H.check(H.shape(tab) == (len(edges), 2), 'one row per magnitude interval')
    for j, e in enumerate(edges):
        H.eq(tab[j, 1], e, 'second column: lower edges')
        H.check(tab[j, 0] <= y1 - H.p['dt'] + 1e-6, 'year not after the last year minus one step')
        H.check(tab[j, 0] >= y1 - times[-1] - 1e-6, 'year within the analysed range')
        H.check(H.Or(*[H.close(tab[j, 0], y1 - t) for t in times]), 'year on the time grid')
        if lock and j:
            H.check(tab[j, 0] <= tab[j - 1, 0] + 1e-6, 'locked: completeness year never increases')
    H.check(H.And(*[H.And(p == q, s == t) for p, q, s, t in zip(a, year, b, mag)]), 'inputs unchanged')
    H.cover('lock' if lock else 'no lock')


QUICK = [('a', dict(n=3, y0=1990, y1=1994, mags=[4.0, 4.26, 4.5, 4.75], dm=0.5, dt=1)),
         ('round', dict(n=2, y0=1990, y1=1993, mags=[4.0, 4.496, 4.994, 5.0, 5.26], dm=0.5, dt=1)),
         ('step2', dict(n=3, y0=1990, y1=1996, mags=[4.0, 5.25], dm=0.5, dt=2)),
         ('long', dict(n=5, y0=1990, y1=1995, mags=[4.0, 5.0, 5.5], dm=1.0, dt=1, ends=True, fixmags=True))]
# three magnitude intervals: the lock is against the interval before
QUICK += [('three', dict(n=4, y0=1990, y1=1995, mags=[4.0, 4.75, 5.25], dm=0.5, dt=1, ends=True, middle=True))]
# years with a fraction; a time step that is not whole
QUICK += [('fraction', dict(n=4, y0=1990, y1=1994, mags=[4.0, 4.5], dm=0.5, dt=1, ends=True, fixmags=True, real=True)),
          ('halves', dict(n=3, y0=1990, y1=1995, mags=[4.0, 4.5], dm=0.5, dt=1.5, ends=True, fixmags=True, real=True))]
# magnitudes and years around zero
QUICK += [('zero', dict(n=3, y0=-2, y1=1, mags=[-0.74, 0.0, 0.25], dm=0.5, dt=1, ends=True))]
# constants and tables in double arithmetic: magnitudes on the edges of intervals
QUICK += [('tenths', dict(n=3, y0=1990, y1=1994, mags=[3.0, 3.2, 3.3, 3.5], dm=0.1, dt=1, float=True, fixmags=True, ends=True)),
          ('fifths', dict(n=3, y0=1990, y1=1994, mags=[3.0, 3.4, 3.6, 4.0], dm=0.2, dt=1, float=True, fixmags=True, ends=True))]
QUICK += [('eighths', dict(n=3, y0=1990, y1=1994, mags=[3.0, 3.125, 3.24, 3.375], dm=0.125, dt=1, fixmags=True, ends=True))]
# historical catalogues: rates of a few events in thousands of years
QUICK += [('centuries', dict(n=4, ytab=[-700, 300, 1450, 2000], y0=-700, y1=2000, mags=[4.0, 4.75], dm=0.5, dt=150, ends=True, fixmags=True))]
# long catalogues, many intervals and steps
G = dict(n=2, y0=1960, y1=2009, dt=5, more=200, ytab=[1960, 1985, 2005], grid_years=list(range(1962, 2008)) + [1960, 2009])
QUICK += [('many', dict(G, mags=[4.0, 4.75], dm=0.5, grid=[4.0, 4.25, 4.5, 4.75, 5.0, 5.25, 5.75, 6.26])),
          ('many-tenths', dict(G, mags=[4.0, 4.6], dm=0.1, dt=10, grid=[4.0, 4.1, 4.2, 4.3, 4.5, 4.6, 4.9, 5.3], float=True))]
THOROUGH = QUICK + [
    ('wide', dict(n=4, y0=1980, y1=1987, mags=[3.0, 4.25, 4.5, 5.0], dm=0.5, dt=1, ends=True)),
    ('big', dict(n=7, y0=1990, y1=1997, mags=[4.0, 4.25, 4.5], dm=0.25, dt=1, ends=True, fixmags=True)),
    ('step3', dict(n=4, y0=1980, y1=1992, mags=[4.0, 4.5, 5.25], dm=0.5, dt=3, ends=True))]


def scenarios(tier, body=None):
    out = []
    for name, p in (QUICK if tier == 'quick' else THOROUGH):
        out.append(scen(name, body or definition, p=p, covers=['lock', 'no lock'], bounds=(
            '%(n)d events, years %(years)s, magnitudes %(mags)s, interval %(dm)s, step %(dt)s, '
            'any tolerance in [0.01, 1.5], lock on and off') % dict(p, years=p.get('ytab') or '%(y0)d..%(y1)d' % p) + (', years between the first and last with any fraction' if p.get('real') else ', whole years') + (' and %d fixed events' % p['more'] if p.get('more') else '')))
    return out
