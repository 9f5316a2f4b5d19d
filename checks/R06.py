"""R06: dispatch of the recurrence analysis."""
from vp.harness import scen
from vp.domain import long_events

ASSUMPTIONS = ['the events are taken from stated patterns with two magnitudes and two years varied over stated tables; the parameters of each algorithm are those of R03 to R05']


def body(H):
    p = H.p
    mag = [H.num(m) for m in p['mags']]
    year = [H.num(float(y)) for y in p['years']]
    mag[1] = H.pick('mag', p['m1'])
    year[2] = H.pick('year', [float(y) for y in p['y2']])
    alg = H.choice('algorithm', p['algs'])
    dm, dt = H.choice('windows', [(0.5, 2.0), (0.25, 10.0)])
    ref = H.choice('reference', [4.0, 5.5, -0.25])
    table = H.choice('table', [[(1950.0, 4.0)], [(1965.0, 4.0), (1950.0, 5.0)], [(1950.0, 5.0), (1965.0, 4.0)], [(1966.75, 4.25)]])
    rec = H.mod('mtoolkit.scientific.recurrence')
    y, m = H.arr(year, 'f'), H.arr(mag, 'f')
    ct = [H.num(a) for a, _ in table]
    cm = [H.num(b) for _, b in table]
    tab = H.np.array([[a, b] for a, b in zip(ct, cm)])
    r, x = H.call(rec.recurrence_analysis, y, m, tab, dm, alg, ref, dt)
    H.check(x is None, 'no exception')
    if x is not None:
        return
    if alg == 'Weichert':
        w, x = H.call(rec.weichert_prep, y, m, H.arr(ct, 'f'), H.arr(cm, 'f'), dm, dt)
        H.check(x is None, 'the table is prepared')
        if x is not None:
            return
        want, x = H.call(rec.weichert, w[1], w[0], w[2], ref)
    else:
        want, x = H.call(rec.b_maxlike_time, y, m, H.arr(ct, 'f'), H.arr(cm, 'f'), dm, ref)
    H.check(x is None, 'the estimate exists')
    if x is not None:
        return
    for a, b, n in zip(r, want, ('b-value', 'error of the b-value', 'rate', 'error of the rate')):
        H.eq(a, b, n + ' of the configured algorithm', 1e-6)
    H.check(H.And(*[H.And(y[i] == year[i], m[i] == mag[i]) for i in range(len(mag))]), 'columns unchanged')
    H.cover(alg)


def scenarios(tier):
    t = tier != 'quick'
    base = dict(mags=[4.5, 4.0, 5.0, 5.5, 4.0, 4.5, 6.0], years=[1966, 1971, 1970, 1990, 1983, 1975, 1951], eager=True)
    P = [('weichert', dict(base, algs=['Weichert'], m1=[4.0, 4.5, 5.25], y2=[1968, 1985])),
         ('mle', dict(base, algs=['MLE'], m1=[4.0, 4.5, 5.25], y2=[1968, 1985, 1995])),
         ('other', dict(base, algs=["mle", "MLE"], m1=[4.25], y2=[1968]))]
    n = 90 if not t else 400
    ys, ms = long_events(n, [4.0, 4.0, 4.5, 4.25, 5.0, 4.75, 5.5, 6.0], list(range(1951, 1991)))
    P += [('many', dict(mags=ms, years=ys, algs=['Weichert', 'MLE'], m1=[4.0, 5.25], y2=[1968, 1990]))]
    if t:
        P += [('both', dict(base, algs=['Weichert', 'MLE'], m1=[4.0, 4.25, 4.5, 5.0, 5.75, 6.5], y2=[1955, 1960, 1968, 1977, 1999]))]
    return [scen(n, body, p=p, covers=p['algs'], bounds='%(n)d events, one magnitude of %(m1)s and one year of %(y2)s, algorithm %(algs)s, 2 windows, 3 references, 4 completeness tables (one not in the order of magnitudes, one with a fraction of a year)' % dict(p, n=len(p['mags']))) for n, p in P]
