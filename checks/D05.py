"""D05: declustering does not depend on the order of the catalogue rows."""
from vp.harness import scen
from vp.declust import *

ASSUMPTIONS = ['locations and magnitudes from stated tables, dates any within a stated range; adjacent exchanges generate every permutation']


def body(H):
    p = H.p
    n = p['n']
    method = H.choice('method', ['gk', 'af'])
    c = Cat(H, n, dict(p, distinct=True))
    perms = [list(range(n))[::-1]]
    for k in range(n - 1):
        q = list(range(n))
        q[k], q[k + 1] = q[k + 1], q[k]
        perms.append(q)
    q = H.choice('permutation', perms if not p.get('perms') else perms[::len(perms) // p['perms']][:p['perms']])
    par = p['gk'] if method == 'gk' else p['af']
    opt = H.choice('window', p['windows'])
    r, x, a = run(H, c, method, opt, par)
    s, y, b = run(H, c, method, opt, par, q)
    H.check(x is None and y is None, 'no exception')
    if x is not None or y is not None:
        return
    for i in range(n):
        H.check(s[2][i] == r[2][q[i]], 'flags move with their events')
        for j in range(i):
            H.check(H.Iff(same_cluster(H, s[0], i, j), same_cluster(H, r[0], q[i], q[j])), 'same events share a cluster')
    H.cover(method)


def scenarios(tier):
    t = tier != 'quick'
    cov = ['gk', 'af']
    out = [scen('three', body, p=dict(n=3, windows=['GardnerKnopoff'], gk=0.5, af=365.0, spots=SPOTS3, mags=[4.0, 5.0, 6.5], span=2), covers=cov,
                bounds='3 events, dates on 1 January of 1990-1992, 3 locations, 3 magnitudes'),
           scen('two', body, p=dict(n=2, windows=WINDOWS, gk=1.0, af=60.5, dates='days', span=1), covers=cov,
                bounds='2 events, any day of January of 2 years, 5 locations, 4 magnitudes')]
    out.append(scen('close', body, p=dict(n=3 if not t else 4, windows=['GardnerKnopoff'], gk=0.5, af=365.0, spots=SPOTS3[:2], sorted=True, span=1,
                                          mags=[[5.01, 5.03], [5.02, 5.04], [5.0, 5.05], [5.06]]), covers=cov, bounds='3 or 4 events of magnitudes within 0.06 of each other, in any order'))
    out.append(scen('many', body, p=dict(MANY, windows=['GardnerKnopoff'], gk=0.5, af=60.5), covers=cov, bounds='11 events of four clusters, one varying over 5 locations, 5 dates, 4 magnitudes'))
    out.append(scen('long', body, p=dict(FEW, perms=None if t else 3, windows=['GardnerKnopoff'], gk=0.5, af=60.5), covers=cov, bounds='33 events, one varying over 2 locations, 2 dates, 2 magnitudes' + ('' if t else '; three orders')))
    if t:
        out += [scen('windows', body, p=dict(n=3, windows=WINDOWS, gk=0, af=730.0), covers=cov, bounds='3 events, 5 locations, 4 magnitudes'),
                scen('four', body, p=dict(n=4, windows=['GardnerKnopoff'], gk=0.5, af=365.0, spots=SPOTS3, sorted=True, span=2,
                                          mags=[[4.0, 6.75], [5.0], [6.5], [4.5, 7.25]]), covers=cov, bounds='4 events, partly ordered magnitudes')]
    return out
