"""M04: normal distribution approximation."""
import math
from vp.harness import scen

ASSUMPTIONS = ['values are rationals, of a stated table where the distribution itself is compared']


def known(H, x):
    """The published polynomial with the wrong sign of its second coefficient (known finding)."""
    a = H.abs(x)
    q = 1.0 + 0.196854 * a - 0.115194 * a * a + 0.000344 * a * a * a + 0.019527 * a * a * a * a
    q2 = q * q
    y = 1.0 - 0.5 / (q2 * q2)
    return H.ite(x < 0, 1.0 - y, y)


def table(H):
    p = H.p
    xs = [H.pick('x%d' % i, p['xs']) if not p.get('fixed') or i in (p['n'] // 2, p['n'] - 1) else H.num(-6.0 + i * 37 % 193 / 16.0) for i in range(p['n'])]
    bar, sg = H.choice('scale', p['scales'])
    f = H.mod('mtoolkit.scientific.maximum_magnitude').gauss_cdf_hastings
    v = H.arr([x * sg + bar for x in xs], 'f')
    if p.get('default'):
        r, e = H.call(f, v)
    else:
        r, e = H.call(f, v, bar, sg)
    H.check(e is None, 'no exception')
    if e is not None:
        return
    H.check(H.shape(r) == (p['n'],), 'one value for each')
    for i, x in enumerate(xs):
        y = r[i]
        H.check(H.And(y >= 0, y <= 1), 'between zero and one')
        H.check(H.Implies(x > 5, y == 1), 'one above five deviations')
        H.check(H.Implies(x == 0, H.abs(y - 0.5) <= 1e-9), 'half at the mean')
        phi = 0.5 * H.fun('erfc', -x * (1 / math.sqrt(2.0)))
        ok = H.And(H.abs(y - phi) <= 3e-4)
        # known: a_2 has the wrong sign
        k1 = H.And(x >= -5, x <= 5, H.abs(y - known(H, x)) <= 1e-9)
        # known: below minus five the value is one, not zero
        k2 = H.And(x < -5, y == 1)
        H.check(H.Or(ok, k1, k2), 'the cumulative normal distribution')
        if H.possible(H.And(k1, H.Not(ok))):
            H.cover('known:hastings-a2')
        if H.possible(H.And(k2, H.Not(ok))):
            H.cover('known:hastings-tail')
        H.check(v[i] == x * sg + bar, 'argument unchanged')
    H.cover('end')


def anyx(H):
    """Symmetry, tails and scale for any value."""
    p = H.p
    x = H.real('x', -12, 12)
    f = H.mod('mtoolkit.scientific.maximum_magnitude').gauss_cdf_hastings
    r, e = H.call(f, H.arr([x, H.num(2.5)], 'f'))
    s, e2 = H.call(f, H.arr([H.num(1.0), -x], 'f'))
    t, e3 = H.call(f, H.arr([x * 2.0 + 3.0], 'f'), 3.0, 2.0)
    H.check(e is None and e2 is None and e3 is None, 'no exception')
    if e is not None or e2 is not None or e3 is not None:
        return
    H.assume(H.And(H.abs(x - 5) > 1e-6, H.abs(x + 5) > 1e-6, H.Or(x == 0, H.abs(x) > 1e-6)))
    if H.decide(x > 5):
        H.check(r[0] == 1, 'one above five deviations')
        H.cover('above')
    elif H.decide(x < -5):
        H.check(H.Or(r[0] == 0, r[0] == 1), 'tail value')
        H.cover('below')
    else:
        H.check(H.close(r[0], 1.0 - s[1]), 'symmetric')
        H.cover('inside')
    H.check(H.close(t[0], r[0]), 'only depends on the normalised value')
    H.cover('end')


def scenarios(tier):
    t = tier != 'quick'
    X = [-8.0, -5.25, -5.0, -4.5, -3.0, -2.25, -1.5, -1.0, -0.5, -0.125, 0.0, 0.25, 0.75, 1.0, 1.25, 2.0, 2.75, 3.5, 4.75, 5.0, 5.5, 30.0]
    S = [(0.0, 1.0), (4.5, 0.5), (-2.0, 8.0)]
    P = [('pair', dict(n=2, xs=X, scales=S)), ('one', dict(n=1, xs=[k / 16.0 for k in range(-100, 101)], scales=S[:2])),
         ('default', dict(n=2, xs=X[::2], scales=S[:1], default=True))]
    P += [('many', dict(n=300 if t else 60, xs=X[1::3], scales=S[:2], fixed=True))]
    if t:
        P += [('three', dict(n=3, xs=X[::2], scales=S)), ('fine', dict(n=1, xs=[k / 64.0 for k in range(-450, 451)], scales=S[:1]))]
    return [scen(nm, table, p=p, covers=['end'], bounds='%d values, each (of the many: two) any of %d between %s and %s' % (p['n'], len(p['xs']), p['xs'][0], p['xs'][-1])) for nm, p in P] + \
        [scen('any', anyx, covers=['above', 'below', 'inside'], bounds='any value between -12 and 12')]
