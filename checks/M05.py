"""M05: kernel bandwidth, sample points, integral."""
from vp.harness import scen
from vp.domain import long_events

ASSUMPTIONS = ['magnitudes come from stated tables; quantiles are those of scipy.stats.mstats.mquantiles with its defaults (modelled); '
               'bandwidths within 1e-9 of a rounding boundary are left out; the integral uses the module\'s distribution function (M04)']


def quantile(H, s, q):
    """alphap = betap = 0.4."""
    n = len(s)
    m = 0.4 + q * 0.2
    al = n * q + m
    k = int(min(max(al, 1), n - 1))
    g = min(max(al - k, 0.0), 1.0)
    return s[k - 1] * (1.0 - g) + s[k] * g


def ordered(H, xs):
    xs = list(xs)
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i):
            a, b = xs[j], xs[j + 1]
            xs[j], xs[j + 1] = H.min([a, b]), H.max([a, b])
    return xs


def bandwidth(H):
    p = H.p
    n = p['n']
    mag = [H.pick('mag%d' % i, p['mags']) for i in range(n)]
    if p.get('more'):
        mag += [H.num(m) for m in long_events(p['more'], p['grid'], [1])[1]]
        n = len(mag)
    am = H.arr(mag, 'f')
    r, x = H.call(H.mod('mtoolkit.scientific.maximum_magnitude').h_smooth, am)
    H.check(x is None, 'no exception')
    if x is not None:
        return
    mean = H.sum(mag) / n
    std = H.fun('sqrt', H.sum([(m - mean) * (m - mean) for m in mag]) / n)
    s = ordered(H, mag)
    iqr = (quantile(H, s, 0.75) - quantile(H, s, 0.25)) / 1.34
    h = 0.9 * H.min([std, iqr]) * n ** -0.2
    fr = h * 100 - H.floor(h * 100)
    H.check(H.Or(H.abs(fr - 0.5) <= 1e-7, H.abs(r * 100 - H.rint(h * 100)) <= 1e-7), 'smaller of the two spreads, to two decimals')
    H.check(H.And(*[am[i] == mag[i] for i in range(n)]), 'magnitudes unchanged')
    H.cover('end')


def points(H):
    p = H.p
    lo = H.pick('lower', p['low'])
    up = lo + H.pick('range', p['range'])
    n = H.choice('n', p['n'])
    r, x = H.call(H.mod('mtoolkit.scientific.maximum_magnitude').exp_spaced_points, lo, up, n)
    H.check(x is None, 'no exception')
    if x is not None:
        return
    k = int(n)
    H.check(H.shape(r) == (k,), 'number of points')
    if H.shape(r) != (k,):
        return
    H.eq(r[0], lo, 'starts at the lower bound', 1e-9)
    H.eq(r[k - 1], up, 'ends at the upper bound', 1e-9)
    a, b = H.fun('exp', lo), H.fun('exp', up)
    for i in range(k):
        if i:
            H.check(r[i] > r[i - 1], 'increasing')
        H.eq(H.fun('exp', r[i]), a + (b - a) * i / (k - 1.0), 'evenly spaced in the exponential', 1e-7)
    H.cover('end')


def integral(H):
    p = H.p
    n = p['n']
    mag = [H.pick('mag%d' % i, p['mags']) for i in range(n)]
    if p.get('more'):
        mag += [H.num(m) for m in long_events(p['more'], p['mags'], [1])[1]]
        n = len(mag)
    grid = [H.num(v) for v in H.choice('grid', p['grids'])]
    if p.get('top'):
        grid[-1] = H.pick('top', p['top'])
    h = H.choice('h', p['h'])
    neq = H.choice('neq', [1.0, float(n), 7.0])
    mm = H.mod('mtoolkit.scientific.maximum_magnitude')
    ag, am = H.arr(grid, 'f'), H.arr(mag, 'f')
    F = mm.gauss_cdf_hastings
    lo = F(H.arr([(H.min(grid) - m) / h for m in mag], 'f'))
    hi = F(H.arr([(H.max(grid) - m) / h for m in mag], 'f'))
    base = H.sum([hi[i] - lo[i] for i in range(n)])
    H.assume(H.abs(base) > 1e-6)
    r, x = H.call(mm.kijko_npg_intfunc_simps, ag, am, h, neq)
    H.check(x is None, 'no exception')
    if x is not None:
        return
    vals = []
    for g in grid:
        c = F(H.arr([(g - m) / h for m in mag], 'f'))
        q = H.sum([c[i] - lo[i] for i in range(n)]) / base
        v = H.num(1.0)
        for _ in range(int(neq)):
            v = v * q
        vals.append(v)
    want = H.sum([(vals[i] + vals[i + 1]) * (grid[i + 1] - grid[i]) * 0.5 for i in range(len(grid) - 1)])
    H.eq(r, want, 'trapezoidal integral of the normalised distribution to the power of the number of events', 1e-7)
    H.check(H.And(*([am[i] == mag[i] for i in range(n)] + [ag[i] == grid[i] for i in range(len(grid))])), 'arguments unchanged')
    H.cover('end')


def scenarios(tier):
    t = tier != 'quick'
    out = []
    B = [('three', dict(n=3, mags=[4.0, 4.1, 4.5, 4.75, 5.2, 6.0, 7.5])), ('four', dict(n=4, mags=[4.0, 4.5, 4.75, 5.25, 6.0, 6.1])),
         ('two', dict(n=2, mags=[4.0, 4.01, 4.05, 4.3, 4.7, 5.0, 5.5, 6.1, 7.0, 8.2]))]
    B += [('many', dict(n=1, mags=[4.0, 5.25, 7.5], more=300 if t else 130, grid=[4.0, 4.25, 4.5, 4.75, 5.0, 5.5, 6.25, 7.0]))]
    if t:
        B += [('five', dict(n=5, mags=[4.0, 4.5, 5.25, 6.0])), ('six', dict(n=6, mags=[4.0, 4.4, 6.0]))]
    for nm, p in B:
        out.append(scen('bandwidth-' + nm, bandwidth, p=p, covers=['end'], bounds='%(n)d magnitudes, each any of %(mags)s' % p + (' and %d fixed ones' % p['more'] if 'more' in p else '')))
    out.append(scen('points', points, p=dict(low=[4.0, 5.8, 6.25], range=[0.1, 0.5, 1.6, 3.0], n=[2.0, 3.0, 5.0, 8.0, 21.0] + ([51.0] if t else [])), covers=['end'],
                    bounds='2 to 21 points (51 in the thorough tier), bounds from tables of 3 and 4 values'))
    out.append(scen('points-many', points, p=dict(low=[4.0, 5.8], range=[0.5, 1.6], n=[60.0, 130.0, 300.0]), covers=['end'],
                    bounds='60, 130 and 300 points, bounds from tables of 2 values'))
    I = [('mags', dict(n=3, mags=[4.0, 4.5, 4.75, 5.25], grids=[[4.0, 4.25, 5.0, 5.25], [4.0, 5.0, 5.5]], h=[0.25, 0.5])),
         ('top', dict(n=2, mags=[4.0, 4.5, 5.0], grids=[[4.0, 4.5, 4.75, 5.0, None]], top=[5.125, 5.5, 6.25], h=[0.25, 1.0]))]
    k = 60 if not t else 130
    I += [('many', dict(n=1, mags=[4.0, 4.5, 4.75, 5.25], more=40 if not t else 100, grids=[[4.0 + 0.03125 * i for i in range(k)]], h=[0.25]))]
    if t:
        I += [('mags4', dict(n=4, mags=[4.0, 4.5, 4.75, 5.25, 5.5], grids=[[4.0, 4.25, 5.0, 5.25, 5.5, 5.625]], h=[0.25, 0.75]))]
    for nm, p in I:
        p = dict(p, grids=[[4.0 if v is None else v for v in g] for g in p['grids']])
        out.append(scen('integral-' + nm, integral, p=dict(p, eager=False), covers=['end'], bounds='%(n)d magnitudes, each any of %(mags)s, points %(grids)s, bandwidths %(h)s' % p if len(p['grids'][0]) < 30 else
                        'one magnitude any of %s and %d fixed ones, %d points' % (p['mags'], p['more'], len(p['grids'][0]))))
    return out
