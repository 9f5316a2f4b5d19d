"""D02: Gardner-Knopoff removes exactly the events inside a larger event's windows."""
from vp.harness import scen
from vp.declust import *

ASSUMPTIONS = ['locations and magnitudes from stated tables, dates any within a stated range',
               'no event within 1e-5 km or 1e-8 years of the edge of a window, unless the edge is the date of the event itself']

FINE = [(1993, 7, 1)] + [(1992 + k // 24, k % 24 // 2 + 1, k % 2 * 14 + 1) for k in range(72)]


def body(H):
    p = H.p
    c = Cat(H, p['n'], dict(p, distinct=True))
    opt = H.choice('window', p['windows'])
    par = H.choice('par', p['pars'])
    r, x, a = run(H, c, p.get('method', 'gk'), opt, par)
    H.check(x is None, 'no exception')
    if x is not None:
        return
    flag, rel = reference(H, c, p.get('method', 'gk'), opt, par)
    for i in range(c.n):
        H.check(r[2][i] == flag[i], 'flag by the definition')
        for j in range(i):
            H.check(H.Iff(same_cluster(H, r[0], i, j), rel[i, j]), 'cluster by the definition')
    n = H.count([f != 0 for f in flag])
    H.cover('%d dependent' % H.concrete_int(n))


def scenarios(tier):
    t = tier != 'quick'
    cov = lambda n: ['%d dependent' % i for i in range(n)]
    out = [scen('three', body, p=dict(n=3, windows=WINDOWS, pars=[0, 0.5, 1.0]), covers=cov(3),
                bounds='3 events, dates on 1 January of 1990-1993, 5 locations, 4 magnitudes'),
           scen('days', body, p=dict(n=3, windows=['GardnerKnopoff', 'Gruenthal'], pars=[0, 0.3], dates='days', span=1, spots=SPOTS3, mags=[4.0, 5.0, 6.5]),
                covers=cov(3), bounds='3 events, any day of January of 2 years'),
           scen('table', body, p=dict(n=2, windows=WINDOWS, pars=[0, 0.5], dates='table'), covers=cov(2),
                bounds='2 events, 6 dates over month and year ends'),
           scen('four', body, p=dict(n=4, windows=['GardnerKnopoff'], pars=[0.5], span=2, spots=SPOTS3, sorted=True,
                                     mags=[[4.0, 6.75], [5.0], [6.5], [4.5, 7.25]]),
                covers=cov(4), bounds='4 events, partly ordered magnitudes')]
    out.append(scen('limits', body, p=dict(n=3, windows=['Fixed'], pars=[0, 1.0, 2.0], spots=SPOTS3), covers=cov(3),
                    bounds='3 events, a distance window of 0 km and a time window of 1 year, dates on 1 January of 1990-1993'))
    out.append(scen('fine-space', body, p=dict(n=2, windows=WINDOWS, pars=[0.5], span=0, spots_of=[[(10.31 + k * 0.005, 0.0) for k in range(64)], [(10.0, 0.0)]],
                                               mags=[4.0, 5.96, 6.0, 6.04, 6.49]), covers=cov(2),
                    bounds='2 events, magnitudes with two decimals, locations every 0.005 degrees around the edges of their windows'))
    out.append(scen('rim', body, p=dict(rims(), pars=[0.5]), covers=cov(2), bounds='2 events of 3 magnitudes with three decimals, a dozen metres inside or outside the windows of each'))
    out.append(scen('fine-time', body, p=dict(n=2, windows=['GardnerKnopoff', 'Gruenthal'], pars=[0.5, 1.0], spots=SPOTS3[:1], dates='fine',
                                              datetable=FINE, mags=[-0.55, 4.0, 5.24, 5.2, 6.49]), covers=cov(2),
                    bounds='2 events, magnitudes with two decimals and below zero, %d dates' % len(FINE)))
    # windows a hundredth of a day longer or shorter than whole days
    EDGE = [round((math.log10(d) + 0.547) / 0.5409, 6) for d in (10.99, 11.01, 28.99, 29.01)]
    EDGG = [round(((math.log(d) + 3.95) ** 2 - 0.62) / 17.32, 6) for d in (10.99, 11.01, 28.99, 29.01)]
    for w, e in (('GardnerKnopoff', EDGE), ('Gruenthal', EDGG)):
        out.append(scen('edges-' + w.lower(), body, p=dict(n=2, windows=[w], pars=[1.0], dates='days', span=0, spots=SPOTS[:1], mags=e), covers=cov(2),
                        bounds='2 events, any days of one month, windows a hundredth of a day longer or shorter than whole days'))
    out.append(scen('globe', body, p=dict(n=2, windows=WINDOWS, pars=[0.5], span=0, spots=GLOBE, mags=[4.0, 5.0, 6.5]), covers=cov(2),
                    bounds='2 events, 3 magnitudes, 9 locations at the date line, near a pole and elsewhere'))
    out.append(scen('many', body, p=dict(MANY, windows=['GardnerKnopoff', 'Uhrhammer'] if not t else WINDOWS, pars=[0, 0.25]), covers=[], bounds='11 events of four clusters, one varying over 5 locations, 5 dates, 4 magnitudes'))
    out.append(scen('long', body, p=dict(LONG, windows=['GardnerKnopoff'], pars=[0.25]), covers=[], bounds='33 events, one varying over 5 locations, 5 dates, 4 magnitudes'))
    out.append(scen('sizes', body, p=dict(n=2, windows=WINDOWS, pars=[0.5], dates='table', spots=SPOTS[:4], mags=[0.3, 1.5, 3.9, 8.1, 9.5]), covers=cov(2),
                    bounds='2 events, 6 dates, 4 locations, magnitudes of 0.3 to 9.5'))
    k = 60 if not t else 200
    out.append(scen('pairs', numbers, p=dict(pairs(k), method='gk', par=0.25), covers=['end'], bounds='%d pairs of events far from each other, one more event with 2 locations and 2 magnitudes' % k))
    if t:
        out += [scen('four-any', body, p=dict(n=4, windows=WINDOWS, pars=[0, 0.5], span=2, spots=SPOTS3, mags=[4.0, 5.0, 6.5, 7.25]),
                     covers=cov(4), bounds='4 events in any order'),
                scen('table3', body, p=dict(n=3, windows=WINDOWS, pars=[0, 0.5], dates='table'), covers=cov(3),
                     bounds='3 events, 6 dates over month and year ends')]
    return out
