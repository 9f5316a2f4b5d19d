"""M01: cumulative moment maximum magnitude."""
from vp.harness import scen
from vp.domain import long_events

ASSUMPTIONS = ['years and magnitudes come from stated tables; the events span at least two calendar years and do not release '
               'exactly the same moment every year (no departure to convert to a magnitude)']


def estimate(H, year, mag, years=None):
    """From the definition; None when there is no departure from steady release."""
    mo = [H.fun('power', 10.0, 9.05 + 1.5 * m) for m in mag]
    y0, y1 = H.min(year), H.max(year)
    n = H.concrete_int(y1 - y0 + 1)
    first = y0
    rate = []
    for k in range(n):
        rate.append(H.sum([H.ite(y == first + k, m, H.num(0.0)) for y, m in zip(year, mo)]))
    total = H.sum(mo)
    mean = total / n
    cum, dev = H.num(0.0), []
    for k in range(n):
        cum = cum + rate[k]
        dev.append(cum - mean * (k + 1))
    d = H.max([H.num(0.0)] + dev) - H.min([H.num(0.0)] + dev)
    return (H.fun('log10', d) - 9.05) * (2.0 / 3.0), d, total, n


def body(H):
    p = H.p
    n = p['n']
    mag = [H.pick('mag%d' % i, p['mags']) for i in range(n)] if p.get('mags') else [H.num(m) for m in H.choice('mags', p['mpat'])]
    year = [H.pick('year%d' % i, p['years'], 'i') for i in range(n)] if p.get('years') else [H.num(y) for y in H.choice('years', p['ypat'])]
    if p.get('more'):
        ys, ms = long_events(p['more'], p['grid'], [y for y in range(1930, 1991) if y % 10])
        mag, year = mag + [H.num(m) for m in ms], year + [H.num(y) for y in ys]
        n = len(mag)
    span = H.max(year) - H.min(year)
    H.assume(span >= 1)
    want, d, total, ny = estimate(H, year, mag)
    H.assume(d > total * 1e-6)
    f = H.mod('mtoolkit.scientific.maximum_magnitude').cumulative_moment
    ay, am = H.arr([y * H.num(1.0) for y in year], 'f'), H.arr(mag, 'f')
    r, x = H.call(f, ay, am)
    H.check(x is None, 'no exception')
    if x is not None:
        return
    H.eq(r, want, 'largest excess plus largest deficit over steady release', 1e-6)
    H.check(H.And(*[H.And(ay[i] == year[i], am[i] == mag[i]) for i in range(n)]), 'columns unchanged')
    o = list(range(n))[::-1]
    if n > 2:
        o = o[1:] + o[:1]
    r2, x = H.call(f, H.arr([year[i] * H.num(1.0) for i in o], 'f'), H.arr([mag[i] for i in o], 'f'))
    H.check(x is None, 'no exception in another order')
    if x is None:
        H.eq(r2, want, 'same in another order', 1e-6)
    H.cover('end')
    if ny > n:
        H.cover('years without events')


def scenarios(tier):
    t = tier != 'quick'
    M = [4.0, 4.5, 5.25, 6.0]
    P = [('mags', dict(n=4, mags=M, ypat=[[1990, 1991, 1993, 1997], [1995, 1990, 1990, 1994]])),
         ('years', dict(n=3, years=[1990, 1991, 1993, 1998], mpat=[[4.0, 4.5, 6.0], [5.5, 5.5, 5.0]])),
         ('two', dict(n=2, years=[1900, 1901, 1904, 1908, 1911], mags=[3.0, 4.5, 7.5]))]
    P += [('low', dict(n=3, mags=[-1.25, 0.0, 0.5, 1.75], ypat=[[-3, 2, 0], [5, 5, 7]])), ('same', dict(n=2, mags=[4.0, 5.25], ypat=[[1990, 1991], [2000, 2005]]))]
    P += [('many', dict(n=2, mags=[4.0, 7.25], years=[1925, 1960, 1999], more=250 if t else 100, grid=[4.0, 4.5, 4.75, 5.5, 6.25, 7.0]))]
    if t:
        P += [('mags5', dict(n=5, mags=[4.0, 4.75, 6.0], ypat=[[1990, 1991, 1993, 1997, 2010], [1995, 1990, 1990, 1994, 1994]])),
              ('years4', dict(n=4, years=[1990, 1991, 1993, 1998, 2000], mpat=[[4.0, 4.5, 6.0, 5.75]]))]
    return [scen(nm, body, p=dict(p, eager=True), covers=['end'] if p.get('more') else ['end', 'years without events'], bounds=('%d fixed events and ' % p['more'] if p.get('more') else '') + '%d events, magnitudes %s, years %s' % (
        p['n'], p.get('mags') or p['mpat'], p.get('years') or p['ypat'])) for nm, p in P]
