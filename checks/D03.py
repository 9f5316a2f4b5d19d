"""D03: Afteran."""
from vp.harness import scen
from vp.runner import load_check
from vp.declust import *

ASSUMPTIONS = ['locations and magnitudes from stated tables, dates any within a stated range',
               'no event within 1e-5 km of the edge of a distance window']


def body(H):
    load_check('D02').body(H)


def formed(H):
    p = H.p
    c = Cat(H, p['n'], p)
    opt = H.choice('window', p['windows'])
    r, x, a = run(H, c, 'af', opt, H.choice('time_window', p['pars']))
    H.check(x is None, 'no exception')
    if x is not None:
        return
    load_check('D01').wellformed(H, c, r, 'af')
    H.cover('end')


def scenarios(tier):
    t = tier != 'quick'
    cov = lambda n: ['%d dependent' % i for i in range(n)]
    A = dict(method='af')
    out = [scen('three', body, p=dict(A, n=3, windows=WINDOWS if t else ['Gruenthal'], pars=[365.0, 730.0, 60.5] if t else [365.0]), covers=cov(3),
                bounds='3 events, dates on 1 January of 1990-1993, windows of whole years, 5 locations, 4 magnitudes'),
           scen('days', body, p=dict(A, n=3, windows=['GardnerKnopoff'], pars=[10.5, 400.25, 730.0], dates='days', span=1, spots=SPOTS3, mags=[4.0, 5.0, 6.5]),
                covers=cov(3), bounds='3 events, any day of January of 2 years'),
           scen('four', body, p=dict(A, n=4, windows=['GardnerKnopoff'], pars=[365.0], span=3 if t else 2, spots=SPOTS3, sorted=True,
                                     mags=[[4.0, 6.75], [5.0], [6.5], [4.5, 7.25] if t else [7.25]]),
                covers=cov(4), bounds='4 events, partly ordered magnitudes'),
           scen('chain', body, p=dict(A, n=5 if t else 4, windows=['GardnerKnopoff'], pars=[365.0], span=5 if t else 4, spots=[SPOTS[0], SPOTS[4]], sorted=True,
                                      mags=[[5.0], [6.0], [7.25], [5.5], [6.5]]),
                covers=cov(5 if t else 4), bounds='%d events, near or far, any years' % (5 if t else 4)),
           scen('formed', formed, p=dict(n=3, windows=['GardnerKnopoff', 'Uhrhammer'], pars=[365.0]), covers=['end'], bounds='3 events with ties')]
    out.append(scen('limits', body, p=dict(A, n=3, windows=['Fixed'], pars=[365.0], spots=SPOTS3[:2], mags=[4.0, 5.0, 6.5]), covers=cov(3),
                    bounds='3 events, a distance window of 0 km and a time window of 1 year, dates on 1 January of 1990-1993'))
    out.append(scen('rim', body, p=dict(A, **dict(rims(), pars=[60.0])), covers=cov(2), bounds='2 events of 3 magnitudes with three decimals, a dozen metres inside or outside the windows of each'))
    out.append(scen('globe', body, p=dict(A, n=2, windows=WINDOWS, pars=[60.0], span=0, spots=GLOBE, mags=[4.0, 5.0, 6.5]), covers=cov(2),
                    bounds='2 events, 3 magnitudes, 9 locations at the date line, near a pole and elsewhere'))
    out.append(scen('many', body, p=dict(A, **dict(MANY, windows=['GardnerKnopoff'] if not t else WINDOWS, pars=[25.5, 100.5])), covers=[], bounds='11 events of four clusters, one varying over 5 locations, 5 dates, 4 magnitudes'))
    out.append(scen('long', body, p=dict(A, **dict(LONG if t else FEW, windows=['GardnerKnopoff'], pars=[100.5])), covers=[], bounds='33 events, one varying over %s' % ('5 locations, 5 dates, 4 magnitudes' if t else '2 locations, 2 dates, 2 magnitudes')))
    out.append(scen('sizes', body, p=dict(A, n=2, windows=WINDOWS, pars=[10.5, 400.25], dates='table', spots=SPOTS[:4], mags=[0.3, 1.5, 3.9, 8.1, 9.5]), covers=cov(2),
                    bounds='2 events, 6 dates, 4 locations, magnitudes of 0.3 to 9.5'))
    k = 130 if not t else 260
    out.append(scen('pairs', numbers, p=dict(pairs(k), method='af', par=60.0), covers=['end'], bounds='%d pairs of events far from each other, one more event with 2 locations and 2 magnitudes' % k))
    if t:
        out += [scen('four-any', body, p=dict(A, n=4, windows=WINDOWS, pars=[365.0], span=3, spots=SPOTS3, mags=[4.0, 5.0, 6.5, 7.25]),
                     covers=cov(4), bounds='4 events in any order'),
                scen('table3', body, p=dict(A, n=3, windows=WINDOWS, pars=[60.5, 300.25], dates='table'), covers=cov(3),
                     bounds='3 events, 6 dates over month and year ends')]
    return out
