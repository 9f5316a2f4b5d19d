"""M02: bootstrapped cumulative moment magnitude."""
from vp.harness import scen
from vp.domain import long_events
from vp.concrete import load_check

ASSUMPTIONS = ['standard normal variates are any of a stated table of values each; at least two samples', 'as for M01']


def body(H):
    p = H.p
    n, nb = p['n'], p['samples']
    year = [H.num(y) for y in H.choice('years', p['years'])]
    mag = [H.num(m) for m in p['mags']]
    sigma = H.choice('sigma', p['sigmas'])
    sig = [H.num(s) for s in sigma]
    mm = H.mod('mtoolkit.scientific.maximum_magnitude')
    ay, am, asg = H.arr([y * H.num(1.0) for y in year], 'f'), H.arr(mag, 'f'), H.arr(sig, 'f')
    if p.get('job'):
        r, x = H.call(mm.maximum_magnitude_analysis, ay, am, asg, 'Cumulative_Moment', 0.25, 7, 3, 11, nb)
    elif p.get('seed') is not None:
        r, x = H.call(mm.cum_mo_uncertainty, ay, am, asg, nb, p['seed'])
    else:
        r, x = H.call(mm.cum_mo_uncertainty, ay, am, asg, nb)
    H.check(x is None, 'no exception')
    if x is not None:
        return
    M01 = load_check('M01')
    res = []
    draws = list(H.draws)
    if any(sigma):
        H.check(len(draws) == n * nb and len(set(draws)) == n * nb, 'one variate of its own per event and sample')
        if len(draws) != n * nb:
            return
    for s in range(nb if any(sigma) else 0):
        z = [H.drawn(s * n + i) for i in range(n)]
        res.append(M01.estimate(H, year, [m + g * v for m, g, v in zip(mag, sig, z)])[0])
    if any(sigma):
        mean = H.sum(res) / nb
        var = H.sum([(a - mean) * (a - mean) for a in res]) / (nb - 1)
        H.eq(r[0], mean, 'mean of the samples', 1e-6)
        H.check(H.abs(r[1] - H.fun('sqrt', var)) <= 1e-6, 'sample standard deviation')
    if p.get('again'):
        # variates drawn in between by somebody else do not matter
        again, x = H.call(mm.cum_mo_uncertainty, ay, am, asg, nb, p['seed'])
        H.check(x is None, 'no exception')
        if x is None:
            H.check(H.And(again[0] == r[0], again[1] == r[1]), 'the same seed gives the same result')
    if not any(sigma):
        want = M01.estimate(H, year, mag)[0]
        H.eq(r[0], want, 'plain estimate without uncertainties', 1e-6)
        H.check(H.abs(r[1]) <= 1e-6, 'no deviation without uncertainties')
        H.cover('certain')
    H.check(H.And(*[H.And(ay[i] == year[i], am[i] == mag[i], asg[i] == sig[i]) for i in range(n)]), 'columns unchanged')
    H.cover('end')


def scenarios(tier):
    t = tier != 'quick'
    S2 = [[0.25, 0.5], [0.0, 0.0], [0.125, 0.0]]
    P = [('two', dict(n=2, samples=2, mags=[4.5, 5.5], years=[[1990, 1993], [2000, 1999]], sigmas=S2, draw_table=[-1.5, -0.25, 0.0, 2.0])),
         ('three', dict(n=2, samples=3, mags=[4.5, 5.25], years=[[1990, 1993]], sigmas=S2[:2], draw_table=[-1.0, 0.0, 1.5])),
         ('events', dict(n=3, samples=2, mags=[4.5, 5.25, 5.0], years=[[1990, 1993, 1990]], sigmas=[[0.25, 0.5, 0.125], [0.0] * 3], draw_table=[-1.0, 0.0, 1.5])),
         ('seeded', dict(n=2, samples=2, mags=[4.5, 5.5], years=[[1990, 1993]], sigmas=S2[:1], seed=7, again=True, draw_table=[-1.5, 0.0, 2.0])),
         ('seeded-zero', dict(n=2, samples=2, mags=[4.5, 5.5], years=[[1990, 1993]], sigmas=S2[:1], seed=0, again=True, draw_table=[-1.5, 2.0])),
         ('uncertain', dict(n=2, samples=2, mags=[4.5, 9.5], years=[[1990, 1993]], sigmas=[[1.5, 0.75], [0.0625, 4.0]], draw_table=[-4.25, 0.0, 3.5])),
         ('micro', dict(n=2, samples=2, mags=[0.5, 1.0], years=[[1990, 1993]], sigmas=[[0.5, 0.25]], draw_table=[-2.5, 0.0, 1.5])),
         ('analysis', dict(n=2, samples=3, mags=[4.5, 5.5], years=[[1990, 1993]], sigmas=S2[:2], job=True, draw_table=[-1.5, 2.0]))]
    ys, ms = long_events(40, [4.0, 4.5, 4.75, 5.5, 6.25], list(range(1950, 1991)))
    P += [('many', dict(n=40, samples=3, mags=ms, years=[ys], sigmas=[[0.125 * (i % 4) for i in range(40)]], draw_table=[-1.5, 2.0], draw_free=1)),
          ('samples', dict(n=2, samples=400 if t else 120, mags=[4.5, 5.5], years=[[1990, 1993]], sigmas=S2[:1], draw_table=[-1.5, 0.5], draw_free=1))]
    if t:
        P += [('four', dict(n=2, samples=4, mags=[4.5, 5.5], years=[[1990, 1993]], sigmas=S2, draw_table=[-1.5, 2.0])),
              ('five', dict(n=5, samples=2, mags=[4.5, 5.5, 6.0, 5.0, 4.25], years=[[1990, 1993, 1995, 1990, 1999]], sigmas=[[0.25, 0.5, 0.125, 0.25, 0.5]], draw_table=[-1.5, 2.0]))]
    out = []
    for nm, p in P:
        out.append(scen(nm, body, p=dict(p, eager=True), covers=['end'] + (['certain'] if [0.0] * p['n'] in p['sigmas'] else []),
                        bounds='%(n)d events of magnitudes %(mags)s, %(samples)d samples, variates any of %(draw_table)s each%(free)s, uncertainties %(sigmas)s' % dict(p, free=' (the first, the others fixed)' if 'draw_free' in p else '', mags=p['mags'] if p['n'] < 9 else 'between %s and %s' % (min(p['mags']), max(p['mags'])), sigmas=p['sigmas'] if p['n'] < 9 else 'of 4 values')))
    return out
