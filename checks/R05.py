"""R05: the Weichert estimator."""
import itertools
import math
from vp.harness import scen

ASSUMPTIONS = ['two or more magnitude intervals of equal width; counts, periods and reference magnitudes are taken from stated tables; '
               'rates are compared to 1e-3 relative, since they are those one iteration before the last']
L10 = math.log(10.0)


def body(H):
    p = H.p
    k, dm = p['k'], p['dm']
    fmag = [p['first'] + dm / 2 + dm * i for i in range(k)]
    tper = [H.num(float(t)) for t in H.choice('periods', p['periods'])]
    ref = H.choice('reference', p['refs'])
    rest = tuple((i * 7 + 3) % 11 * (k - i) // 8 for i in range(k))[p.get('picked', k):]
    rows = [r + rest for r in itertools.product(p['counts'], repeat=k - len(rest))]
    good = [r for r in rows if sum(r) not in (0, r[0], r[-1])]
    bad = [r for r in rows if sum(r) in (0, r[0], r[-1])]
    f = H.mod('mtoolkit.scientific.recurrence').weichert
    am, at = H.arr([H.num(m) for m in fmag], 'f'), H.arr(tper, 'f')
    if p.get('refused'):
        n = H.picks('counts', bad)
        args = [at, am, H.arr(n, 'f')] + ([ref] if ref is not None else [])
        r, x = H.call(f, *args)
        H.check(x is not None, 'a likelihood without maximum is refused')
        H.cover('refused')
        return
    n = H.picks('counts', good)
    nobs = H.arr(n, 'f')
    args = [at, am, nobs] + ([ref] if ref is not None else [])
    r, x = H.call(f, *args)
    H.check(x is None, 'no exception')
    if x is not None:
        return
    b, sb, a, sa = r
    beta = b * L10
    N = H.sum(n)
    ex = [H.fun('exp', -beta * m) for m in fmag]
    T = H.sum([t * e for t, e in zip(tper, ex)])
    M1 = H.sum([t * e * m for t, e, m in zip(tper, ex, fmag)]) / T
    M2 = H.sum([t * e * m * m for t, e, m in zip(tper, ex, fmag)]) / T
    V = M2 - M1 * M1
    S = H.sum([c * m for c, m in zip(n, fmag)])
    # d lnL / d beta = N * M1 - S ; its slope -N * V
    step = (N * M1 - S) / (N * V)
    H.check(H.abs(step) <= 1e-5, 'stationary point of the likelihood')
    H.eq(sb * sb * L10 * L10 * N * V, 1.0, 'error of the b-value', 1e-3)
    rate = N * H.sum(ex) / T
    z = ref if ref is not None else 0.0
    if z:
        want = rate * H.fun('exp', -beta * (z - (fmag[0] - dm / 2)))
        H.check(H.abs(a - want) <= 1e-3 * want, 'rate at the reference magnitude')
        H.check(H.abs(sa - want / H.fun('sqrt', N * 1.0)) <= 1e-3 * sa, 'error of the rate')
    else:
        H.check(H.abs(a - rate) <= 1e-3 * rate, 'rate, not shifted for a reference of zero')
        want = rate * H.fun('exp', -beta * (fmag[0] - dm / 2)) / H.fun('sqrt', N * 1.0)
        H.check(H.abs(sa - want) <= 1e-3 * want, 'error of the rate')
        H.cover('known:weichert-zero-reference')
    H.check(H.And(*[nobs[i] == n[i] for i in range(k)]) if k else True, 'counts unchanged')
    H.cover('end')


def scenarios(tier):
    t = tier != 'quick'
    R = [None, 0.0, 4.0, 5.5]
    P = [('three', dict(k=3, first=4.0, dm=0.5, counts=[0, 1, 2, 5, 20], periods=[[20, 20, 20], [10, 30, 80]], refs=R)),
         ('four', dict(k=4, first=4.0, dm=0.1, counts=[0, 1, 3, 20], periods=[[10, 10, 100, 200], [15, 25, 25, 60]], refs=[0.0, 5.0])),
         ('two', dict(k=2, first=5.0, dm=0.25, counts=[0, 1, 2, 3, 5, 8, 20, 100], periods=[[20, 20], [1, 50], [50, 1]], refs=R)),
         ('refused', dict(k=3, first=4.0, dm=0.5, counts=[0, 1, 5, 20], periods=[[20, 20, 20], [10, 30, 80]], refs=R, refused=True))]
    if t:
        P += [('five', dict(k=5, first=4.0, dm=0.5, counts=[0, 1, 4, 30], periods=[[10, 20, 20, 50, 100], [30] * 5], refs=[0.0, 4.5])),
              ('counts', dict(k=3, first=3.0, dm=1.0, counts=[0, 1, 2, 3, 4, 6, 9, 15, 50, 300], periods=[[10, 30, 80], [80, 30, 10]], refs=[0.0, 4.0]))]
    k = 40 if t else 20
    P += [('many', dict(k=k, first=3.0, dm=0.2, counts=[0, 1, 400], periods=[[5 + 5 * i for i in range(k)]], refs=[0.0, 4.5], picked=2))]
    return [scen(nm, body, p=p, covers=['refused'] if p.get('refused') else ['end'],
                 bounds='%d intervals of %s, counts %s each, periods %s, reference %s' % (p['k'], p['dm'], p['counts'], p['periods'], p['refs'])) for nm, p in P]
