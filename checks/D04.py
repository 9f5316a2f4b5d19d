"""D04: the declustered catalogue is the input without its flagged events."""
from vp.harness import scen
from vp.declust import *

ASSUMPTIONS = ['locations and magnitudes from stated tables, dates any within a stated range']


def body(H):
    p = H.p
    method = H.choice('method', ['gk', 'af'])
    c = Cat(H, p['n'], dict(p, sigma=True))
    r, x, a = run(H, c, method, H.choice('window', p['windows']), p['gk'] if method == 'gk' else p['af'])
    H.check(x is None, 'no exception')
    if x is not None:
        return
    n = c.n
    H.check(H.shape(a) == (n, 7), 'input keeps its shape')
    for i in range(n):
        H.check(H.And(*[u == v for u, v in zip(a[i], c.rows[i])]), 'input catalogue not modified')
    H.check(H.shape(r[0]) == (n,) and H.shape(r[2]) == (n,), 'one flag and one cluster number for each row')
    for i in range(n):
        main = [H.And(r[0][i] == r[0][j], r[2][j] == 0, c.mag[j] >= c.mag[i]) for j in range(n) if j != i]
        H.check(H.Implies(r[2][i] != 0, H.And(r[0][i] != 0, H.Or(*main))), 'flags and clusters in input order: a flagged event has its mainshock')
    keep = []
    for i in range(n):
        if H.decide(r[2][i] == 0):
            keep.append(i)
    H.check(H.shape(r[1]) == (len(keep), 7), 'as many rows as events with flag 0')
    if H.shape(r[1]) != (len(keep), 7):
        return
    for k, i in enumerate(keep):
        H.check(H.And(*[u == v for u, v in zip(r[1][k], c.rows[i])]), 'rows with flag 0, in input order, unchanged')
    H.cover('%s %d' % (method, len(keep)))


def scenarios(tier):
    t = tier != 'quick'
    cov = ['%s %d' % (m, k) for m in ('gk', 'af') for k in (1, 2, 3)]
    out = [scen('three', body, p=dict(n=3, windows=['GardnerKnopoff'], gk=0.5, af=365.0, spots=SPOTS3 + [SPOTS[4]], mags=[4.0, 5.0, 6.5]), covers=cov,
                bounds='3 events, dates on 1 January of 1990-1993, 4 locations, 3 magnitudes, ties included'),
           scen('one', body, p=dict(n=1, windows=WINDOWS, gk=0, af=60.0), covers=['gk 1', 'af 1'], bounds='1 event')]
    out.append(scen('small', body, p=dict(n=2, windows=['GardnerKnopoff', 'Uhrhammer'], gk=0.5, af=365.0, spots=SPOTS3[:2], mags=[-0.55, 0.0, 3.96, 4.04]),
                    covers=['gk 1', 'af 1', 'gk 2', 'af 2'], bounds='2 events, magnitudes around zero or with two decimals'))
    out.append(scen('many', body, p=dict(MANY, windows=['GardnerKnopoff'], gk=0.5, af=60.5), covers=[], bounds='11 events of four clusters, one varying over 5 locations, 5 dates, 4 magnitudes'))
    out.append(scen('long', body, p=dict(LONG, windows=['GardnerKnopoff'], gk=0.5, af=60.5), covers=[], bounds='33 events, one varying over 5 locations, 5 dates, 4 magnitudes'))
    if t:
        out += [scen('all windows', body, p=dict(n=3, windows=WINDOWS, gk=1.0, af=60.0), covers=cov, bounds='3 events'),
                scen('four', body, p=dict(n=4, windows=['GardnerKnopoff'], gk=0.5, af=365.0, spots=SPOTS3, sorted=True,
                                          mags=[[4.0, 6.75], [5.0], [6.5], [4.5, 7.25]]), covers=cov, bounds='4 events, partly ordered magnitudes')]
    return out
