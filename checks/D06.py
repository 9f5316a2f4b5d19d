"""D06: window formulas."""
import math
from vp.harness import scen
from vp.declust import WINDOWS

ASSUMPTIONS = ['magnitudes on a grid of 0.125 over [0, 10], and a finer one around 6.5']


def window(H, opt, m, known=False):
    P = (lambda x: H.fun('power', 10.0, x)) if H.p.get('any') else lambda x: H.fun('exp', x * math.log(10))
    if opt == 'GardnerKnopoff':
        return P(0.1238 * m + 0.983), H.ite(m >= 6.5, P(0.032 * m + 2.7389), P(0.5409 * m - 0.547)) / 365
    if opt == 'Gruenthal':
        return (H.fun('exp', 1.77 + H.fun('sqrt', 0.037 + 1.02 * m)),
                H.ite(m >= 6.5, P(2.8 + 0.024 * m), H.fun('exp', -3.95 + H.fun('sqrt', 0.62 + 17.32 * m))) / 365)
    if known:
        return H.fun('exp', -1.024 + 0.804 * m), H.fun('exp', -2.87 + 1.235 * m / 365)
    return H.fun('exp', -1.024 + 0.804 * m), H.fun('exp', -2.87 + 1.235 * m) / 365


def body(H):
    m = H.mod('mtoolkit.scientific.declustering')
    H.check(sorted(m.time_dist_windows) == sorted(WINDOWS), 'the documented options')
    opt = H.choice('window', WINDOWS)
    n = H.p['n']
    if H.p.get('fixed'):
        mag = [H.num(x) for x in H.p['fixed']]
        mag[n // 3], mag[-1] = H.pick('maga', H.p['mags']), H.pick('magb', H.p['mags'])
    else:
        mag = [H.real('mag%d' % i, 0 if opt == 'Gruenthal' else -4, 10) if H.p.get('any') else H.pick('mag%d' % i, H.p['mags']) for i in range(n)]
    a = H.arr(mag)
    (d, t), x = H.call(m.time_dist_windows[opt].calc, a)
    H.check(x is None, 'no exception')
    if x is not None:
        return
    H.check(H.shape(d) == (n,) and H.shape(t) == (n,), 'one window for each event')
    for i in range(n):
        wd, wt = window(H, opt, mag[i])
        H.eq(d[i], wd, 'distance window: the published function of the magnitude', 1e-5)
        if opt == 'Uhrhammer':
            if H.decide(H.close(t[i], wt, 1e-5)):
                H.cover('repaired')
            else:
                H.cover('known:uhrhammer-time')
                H.eq(t[i], window(H, opt, mag[i], True)[1], 'time window: the published function of the magnitude', 1e-5)
        else:
            H.eq(t[i], wt, 'time window: the published function of the magnitude', 1e-5)
        H.check(H.And(d[i] > 0, t[i] > 0), 'windows are positive')
        H.check(a[i] == mag[i], 'magnitudes unchanged')
    H.cover(opt)


def scenarios(tier):
    grid = [i / 8.0 for i in range(81)]
    edge = [6.5 + i / 1024.0 for i in range(-8, 9)]
    out = [scen('one', body, p=dict(n=1, mags=sorted(set(grid + edge))), covers=WINDOWS, bounds='1 event, magnitudes 0 to 10 by 0.125, and around 6.5'),
           scen('three', body, p=dict(n=3, mags=[0.0, 4.0, 6.375, 6.5, 6.625, 9.5]), covers=WINDOWS, bounds='3 events, 6 magnitudes')]
    out.append(scen('any', body, p=dict(n=1, any=True), covers=WINDOWS, bounds='1 event, every real magnitude in [-4, 10] ([0, 10] for Gruenthal); powers and exponentials as functions of their arguments'))
    n = 80 if tier == 'quick' else 400
    out.append(scen('many', body, p=dict(n=n, mags=[4.125, 6.5, 6.53125, 9.0], fixed=[3.0 + (i * 37 % 101) / 16.0 for i in range(n)]),
                    covers=WINDOWS, bounds='%d events, two of any of 4 magnitudes' % n))
    if tier != 'quick':
        out += [scen('fine', body, p=dict(n=1, mags=[i / 100.0 for i in range(1001)]), covers=WINDOWS, bounds='1 event, magnitudes 0 to 10 by 0.01'),
                scen('five', body, p=dict(n=5, mags=[3.0, 6.4, 6.5, 8.0]), covers=WINDOWS, bounds='5 events, 4 magnitudes')]
    return out
