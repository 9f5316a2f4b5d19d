"""R02: Aki-Bender maximum likelihood b-value."""
import math
from vp.harness import scen

ASSUMPTIONS = ['at least two events in the intervals at or above the completeness magnitude']
LOG10E = math.log10(math.e)


def body(H):
    p = H.p
    k, dm = p['k'], p['dm']
    centres = [p['first'] + i * dm for i in range(k)]
    if p['counts'] is None:
        nobs = [H.int('n%d' % i, 0, p['top']) for i in range(k)]
    else:
        nobs = [H.pick('n%d' % i, p['counts']) if i < p.get('picked', k) else H.num((i * 7 + 3) % 11 * (k - i) // 5) for i in range(k)]
    if p['counts'] is None:
        mc = H.real('m_c', 0, centres[-1])
    else:
        mc = H.choice('m_c', [0.0, centres[2], centres[k // 2], centres[k // 2] - 0.3 * dm]) if p.get('picked') else H.choice('m_c', [0.0] + [c + d * dm for c in centres for d in (-0.125, 0, 0.125)][:-1])
    a, b = H.arr([H.num(c) for c in centres], 'f'), H.arr([H.num(x) * H.num(1.0) for x in nobs], 'f')
    first = 0
    while not H.decide(H.num(centres[first]) >= mc):
        first += 1
    N = H.sum(nobs[first:])
    H.assume(N >= 2)
    f = H.mod('mtoolkit.scientific.recurrence').b_max_likelihood
    if p.get('defaults'):
        r, x = H.call(f, a, b)
        H.assume(mc <= 0)
        d = 0.1
    else:
        r, x = H.call(f, a, b, dm, mc)
        d = dm
    H.check(x is None, 'no exception')
    if x is not None:
        return
    bval, sb = r
    S = H.sum([m * c for m, c in zip(centres[first:], nobs[first:])])
    # b = log10(e) / (mean - minimum + d / 2)
    D = S / N - centres[first] + d / 2.0
    H.check(H.close(bval * D, LOG10E), 'b-value')
    V = H.sum([c * (m - S / N) * (m - S / N) for m, c in zip(centres[first:], nobs[first:])])
    H.check(sb >= 0, 'error is not negative')
    if p['counts'] is not None:
        H.check(H.close(sb, 2.3 * bval * bval * H.fun('sqrt', V / (N * (N - 1)))), 'error of the b-value')
    H.cover('from %d' % first)


def scenarios(tier):
    t = tier != 'quick'
    P = [('table', dict(k=3, first=4.25, dm=0.5, counts=[0, 1, 2, 5, 20])), ('four', dict(k=4, first=4.25, dm=0.5, counts=[0, 1, 3, 10])),
         ('any', dict(k=2, first=4.25, dm=0.5, counts=None, top=50)),
         ('defaults', dict(k=3, first=0.0625, dm=0.125, counts=[0, 1, 2, 5, 20], defaults=True))]
    if t:
        P += [('any3', dict(k=3, first=4.25, dm=0.5, counts=None, top=6)), ('five', dict(k=5, first=5.05, dm=0.1, counts=[0, 1, 4]))]
    P += [('many', dict(k=60 if t else 30, first=3.05, dm=0.1, counts=[0, 1, 400], picked=2))]
    out = []
    for n, p in P:
        out.append(scen(n, body, p=p, covers=['from 0'] if p.get('defaults') or p.get('picked') else ['from %d' % i for i in range(p['k'])],
                        bounds='%d intervals of %s, counts %s, any completeness magnitude' % (p['k'], p['dm'], p['counts'] or '0..%d' % p['top'])))
    return out
