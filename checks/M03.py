"""M03: Kijko non-parametric maximum magnitude."""
from vp.harness import scen
from vp.domain import long_events
from vp.concrete import load_check

ASSUMPTIONS = ['magnitudes come from stated tables, with a smoothing factor of at least 0.01; the integral and the sample points are those of M05 '
               '(the functions of the module are called as reference)',
               'magnitudes are compared with the observed maximum only where the normal distribution is not in the tail of finding M04']


def body(H):
    p = H.p
    n, neq = p['n'], p['neq']
    mag = [H.pick('mag%d' % i, p['mags']) for i in range(n)] if p.get('mags') else [H.num(m) for m in H.choice('mags', p['mpat'])]
    if p.get('more'):
        mag += [H.num(m) for m in long_events(p['more'], p['grid'], [1])[1]]
        n = len(mag)
    sig = [H.num(p['sigma'][i % len(p['sigma'])]) for i in range(n)]
    mm = H.mod('mtoolkit.scientific.maximum_magnitude')
    ns, tol, maxit = H.choice('control', p['control'])
    given = H.choice('given', p['given'])
    # the largest events
    k = min(n, neq)
    top = load_check('M05').ordered(H, mag)[n - k:]
    asel = H.arr(top if neq < n else mag, 'f')
    h = mm.h_smooth(asel)
    H.assume(h >= 0.01)
    am, asg = H.arr(mag, 'f'), H.arr(sig, 'f')
    if p.get('job'):
        y = H.arr([H.num(1990.0 + i) for i in range(n)], 'f')
        r, x = H.call(mm.maximum_magnitude_analysis, y, am, asg, 'Kijko_Npg', tol, maxit, neq, ns, 1000)
    else:
        r, x = H.call(mm.kijko_nonparametric_gauss, am, asg, neq, ns, tol, maxit, given)
    H.check(x is None, 'no exception')
    if x is not None:
        return
    mmax, msig = r
    obs = H.num(given[0]) if given else H.max(mag)
    low = H.min(top)
    cur, it, delta = obs, 0, None
    while True:
        pts = mm.exp_spaced_points(low, cur, ns)
        delta = mm.kijko_npg_intfunc_simps(pts, asel, h, float(k))
        it += 1
        new = obs + delta
        d = H.abs(new - cur)
        cur = new
        H.assume(H.Or(d < tol - 1e-9, d > tol + 1e-9))
        if H.decide(d <= tol):
            H.cover('converged')
            break
        if it > maxit:
            H.cover('stopped')
            break
    H.eq(mmax, cur, 'observed maximum plus the last integral', 1e-7)
    # the tail of the distribution is wrong below minus five deviations (M04)
    if H.decide(H.And(obs >= low, H.max([obs] + mag) - low <= 5 * h)):
        H.check(mmax >= obs - 1e-9, 'not below the observed maximum')
        H.cover('inside five deviations')
    cand = [H.num(given[1])] if given else sig
    ok = []
    for i, s in enumerate(cand):
        w = H.fun('sqrt', s * s + delta * delta)
        ok.append(H.And(H.abs(msig - w) <= 1e-7, True if given else mag[i] == obs))
    H.check(H.Or(*ok), 'root of the squares of the uncertainty of the observed maximum and of the integral')
    H.check(H.And(*[H.And(am[i] == mag[i], asg[i] == sig[i]) for i in range(n)]), 'columns unchanged')
    if neq < n:
        H.cover('largest events')


def tail(H):
    """Magnitudes spread over more than five bandwidths: never below the observed maximum, but for the known finding."""
    mag = [H.num(m) for m in H.choice('mags', H.p['mpat'])]
    mm = H.mod('mtoolkit.scientific.maximum_magnitude')
    am = H.arr(mag, 'f')
    r, x = H.call(mm.kijko_nonparametric_gauss, am, H.arr([H.num(0.1)] * len(mag), 'f'), 100, 21.0, 0.01, 20, False)
    H.check(x is None, 'no exception')
    if x is not None:
        return
    obs = H.max(mag)
    if H.decide(r[0] >= obs - 1e-9):
        H.cover('not below')
        return
    # the bandwidth is too small for the distribution function (M04, hastings-tail)
    H.check(H.max(mag) - H.min(mag) >= 4.99 * mm.h_smooth(am), 'not below the observed maximum within five bandwidths')
    H.cover('known:kijko-tail')


def scenarios(tier):
    t = tier != 'quick'
    C = [(5.0, 0.01, 3), (4.0, 0.2, 20)]
    S = [0.1, 0.25, 0.3, 0.15, 0.2, 0.35]
    P = [('mags', dict(n=4, neq=10, mags=[4.0, 4.5, 5.5, 5.75], sigma=S[:4], control=C[:1], given=[False])),
         ('largest', dict(n=4, neq=3, mags=[4.0, 5.0, 5.25, 5.75], sigma=S[:4], control=C[1:], given=[False])),
         ('equal', dict(n=4, neq=4, mags=[4.0, 5.0, 5.5], sigma=S[:4], control=[(5.0, 0.001, 0)], given=[False, (6.0, 0.4)])),
         ('given', dict(n=3, neq=3, mags=[4.0, 4.5, 5.25, 5.5], sigma=S[:3], control=[(6.0, 0.05, 2)], given=[(5.75, 0.5), (6.25, 0.1), (5.125, 0.2)])),
         ('control', dict(n=5, neq=4, mpat=[[4.0, 4.5, 5.5, 5.0, 5.25], [6.0, 4.5, 5.5, 5.0, 5.25]], sigma=S[:5], given=[False, (6.5, 0.2)],
                          control=[(ns, tol, mi) for ns in (5.0, 9) for tol in (1e-6, 0.01, 0.3) for mi in (0, 1, 2, 5, 40)])),
         ('analysis', dict(n=4, neq=3, mags=[4.0, 5.0, 5.75], sigma=S[:4], control=[(5.0, 0.01, 3)], given=[False], job=True))]
    P += [('many', dict(n=1, neq=100, mags=[4.0, 5.25, 7.0], more=120 if t else 40, sigma=S, grid=[4.0, 4.25, 4.5, 4.75, 5.0, 5.5, 6.0, 6.5], control=[(7.0, 0.01, 3)], given=[False])),
          ('many-largest', dict(n=1, neq=20, mags=[4.0, 5.25, 7.0], more=120 if t else 40, sigma=S, grid=[4.0, 4.25, 4.5, 4.75, 5.0, 5.5, 6.0, 6.5], control=[(7.0, 0.01, 3)], given=[False]))]
    if t:
        P += [('mags5', dict(n=5, neq=3, mags=[4.5, 5.0, 5.5, 6.0], sigma=S[:5], control=C[:1], given=[False])),
              ('fine', dict(n=4, neq=4, mags=[4.0, 4.3, 5.1, 5.6, 6.2], sigma=S[:4], control=[(11.0, 0.001, 10)], given=[False]))]
    out = []
    for nm, p in P:
        out.append(scen(nm, body, p=dict(p, eager=False), covers=[] , bounds=('%d fixed events and ' % p['more'] if 'more' in p else '') + '%d events of magnitudes %s, largest %d used, (samples, tolerance, iterations) %s, given maximum %s' % (
            p['n'], p.get('mags') or p['mpat'], p['neq'], p['control'], p['given'])))
    T = [[4.1, 4.2, 4.3, 4.3, 4.3, 4.3, 4.5], [4.1, 4.2, 4.2, 4.2, 4.3, 4.3, 4.3, 4.7], [4.0, 4.4, 4.4, 4.4, 4.4, 4.6, 4.7], [4.0, 4.1, 4.3, 4.4, 5.0], [4.0, 4.2, 4.3, 5.1, 6.0]]
    out.append(scen('tail', tail, p=dict(mpat=T, float=True), covers=['not below'], bounds='5 sets of magnitudes spread over many bandwidths'))
    return out
