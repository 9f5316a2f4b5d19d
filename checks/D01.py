"""D01: Gardner-Knopoff clusters are well formed."""
from vp.harness import scen
from vp.declust import *

ASSUMPTIONS = ['locations and magnitudes from stated tables, dates any within a stated range']


def wellformed(H, c, r, method):
    n = c.n
    vcl, flag = r[0], r[2]
    H.check(H.shape(vcl) == (n,) and H.shape(flag) == (n,), 'one flag and one cluster number for each event')
    v, f = [vcl[i] for i in range(n)], [flag[i] for i in range(n)]
    for i in range(n):
        H.check(H.And(v[i] >= 0, v[i] <= n), 'cluster number within 0..n')
        H.check(H.Or(f[i] == 0, f[i] == 1, f[i] == -1), 'flag is -1, 0 or 1')
        H.check(H.Implies(v[i] == 0, f[i] == 0), 'event outside every cluster has flag 0')
    for k in range(1, n + 1):
        inn = [x == k for x in v]
        used = H.Or(*inn)
        if k > 1:
            H.check(H.Implies(used, H.Or(*[x == k - 1 for x in v])), 'cluster numbers without gaps')
        H.check(H.Implies(used, H.count(inn) >= 2), 'cluster has at least two events')
        H.check(H.Implies(used, H.count([H.And(a, x == 0) for a, x in zip(inn, f)]) == 1), 'exactly one mainshock in a cluster')
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            main = H.And(v[i] != 0, v[i] == v[j], f[i] == 0)
            H.check(H.Implies(main, c.mag[j] <= c.mag[i]), 'no member larger than the mainshock')
            H.check(H.Implies(main, H.Iff(f[j] == -1, c.t[j] < c.t[i])), 'flag -1 exactly before the mainshock')
    return v, f


def body(H):
    p = H.p
    c = Cat(H, p['n'], p)
    opt = H.choice('window', p['windows'])
    prop = H.choice('fs_time_prop', p['props'])
    r, x, a = run(H, c, 'gk', opt, prop)
    H.check(x is None, 'no exception')
    if x is not None:
        return
    v, f = wellformed(H, c, r, 'gk')
    k = [H.Or(*[z == i for z in v]) for i in range(1, c.n + 1)]
    if H.decide(k[0]):
        if c.n < 4:
            H.cover('cluster')
        elif H.decide(k[1]):
            H.cover('two clusters')
        else:
            H.cover('one cluster')
    else:
        H.cover('none')


def scenarios(tier):
    t = tier != 'quick'
    out = [scen('three', body, p=dict(n=3, windows=WINDOWS, props=[0, 0.5, 1.0]), covers=['cluster', 'none'],
                bounds='3 events, dates on 1 January of 1990-1993, 5 locations, 4 magnitudes, ties included'),
           scen('days', body, p=dict(n=3, windows=['GardnerKnopoff'], props=[0, 0.5], dates='days', span=1, spots=SPOTS3, mags=[4.0, 6.5]),
                covers=['cluster', 'none'], bounds='3 events, any day of January of 2 years'),
           scen('one', body, p=dict(n=1, windows=WINDOWS, props=[0, 1.0]), covers=['none'], bounds='1 event'),
           scen('four', body, p=dict(n=4, windows=['GardnerKnopoff'], props=[0.5], span=2, spots=SPOTS3, sorted=True,
                                     mags=[[4.0], [4.0, 6.5], [6.5], [5.0, 7.25]]),
                covers=['two clusters', 'one cluster', 'none'], bounds='4 events, partly ordered magnitudes')]
    out.append(scen('many', body, p=dict(MANY, windows=['GardnerKnopoff'] if not t else WINDOWS, props=[0.25]), covers=['two clusters'],
                    bounds='11 events of four clusters, one varying over 5 locations, 5 dates, 4 magnitudes'))
    out.append(scen('long', body, p=dict(LONG, windows=['GardnerKnopoff'], props=[0.25]), covers=['two clusters'],
                    bounds='33 events, one varying over 5 locations, 5 dates, 4 magnitudes'))
    k = 130 if not t else 260
    out.append(scen('pairs', numbers, p=dict(pairs(k), method='gk', par=0.25), covers=['end'], bounds='%d pairs of events far from each other, one more event with 2 locations and 2 magnitudes' % k))
    if t:
        out += [scen('four-any', body, p=dict(n=4, windows=WINDOWS, props=[0, 0.5], span=2, spots=SPOTS3, mags=[4.0, 6.5, 7.25]),
                     covers=['two clusters', 'one cluster', 'none'], bounds='4 events in any order'),
                scen('table', body, p=dict(n=3, windows=WINDOWS, props=[0, 0.5], dates='table', mags=[4.0, 5.0, 6.5, 6.5, 8.0]),
                     covers=['cluster', 'none'], bounds='3 events, 6 dates over month and year ends')]
    return out
