"""T01: decimal year."""
from vp.harness import scen

CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def date(H, i, long_feb=False):
    y = H.int('year%d' % i, -10000, 2200)
    m = H.int('month%d' % i, 1, 12)
    d = H.int('day%d' % i, 1, 31)
    H.assume(H.Or(*[H.And(m == k + 1, d <= LEN[k] + (1 if long_feb and k == 1 else 0)) for k in range(12)]))
    return y, m, d


def cols(H, ds):
    return [H.arr([H.num(d[j]) for d in ds], 'f') for j in range(3)]


def order(H):
    """Two dates of a non-leap calendar."""
    f = H.mod('mtoolkit.scientific.catalogue_utilities').decimal_year
    a, b = date(H, 0), date(H, 1)
    v, x = H.call(f, *cols(H, [a, b]))
    H.check(x is None and H.shape(v) == (2,), 'one value per date')
    for i, d in enumerate((a, b)):
        H.check(H.And(v[i] >= d[0] - 1e-9, v[i] < d[0] + 1), 'within its year')
        H.eq(v[i], expected(H, d), 'year plus elapsed fraction', 1e-11)
    earlier = H.Or(a[0] < b[0], H.And(a[0] == b[0], H.Or(a[1] < b[1], H.And(a[1] == b[1], a[2] < b[2]))))
    H.check(H.Implies(earlier, v[0] < v[1]), 'later date, larger value')
    H.check(H.Implies(H.And(*[p == q for p, q in zip(a, b)]), v[0] == v[1]), 'same date, same value')
    H.cover('end')


def expected(H, d):
    c = 0
    for k in range(12):
        c = H.ite(d[1] == k + 1, CUM[k], c)
    return d[0] + (c + d[2] - 1) / H.num(365.0)


def successor(H):
    f = H.mod('mtoolkit.scientific.catalogue_utilities').decimal_year
    a = date(H, 0)
    k = H.choice('kind', ['day', 'month', 'year'])
    last = H.Or(*[H.And(a[1] == j + 1, a[2] == LEN[j]) for j in range(12)])
    if k == 'day':
        H.assume(H.Not(last))
        b = (a[0], a[1], a[2] + 1)
    elif k == 'month':
        H.assume(H.And(last, a[1] < 12))
        b = (a[0], a[1] + 1, 1)
    else:
        H.assume(H.And(last, a[1] == 12))
        b = (a[0] + 1, 1, 1)
    v = f(*cols(H, [a, b]))
    H.eq(v[1] - v[0], 1 / 365.0, 'consecutive days differ by 1/365', 1e-9)
    H.cover(k)


def elementwise(H):
    """Any date the catalogue accepts (29 February included), alone and among others."""
    f = H.mod('mtoolkit.scientific.catalogue_utilities').decimal_year
    n = H.p['n']
    ds = [date(H, i, True) for i in range(n)]
    c = cols(H, ds)
    keep = [list(x) for x in c]
    v = f(*c)
    H.check(H.shape(v) == (n,), 'one value per date')
    for i in range(n):
        w = f(*cols(H, [ds[i]]))
        H.check(v[i] == w[0], 'value depends on its date only')
        H.eq(v[i], expected(H, ds[i]), 'year plus elapsed fraction', 1e-11)
    H.check(H.And(*[p == q for x, k in zip(c, keep) for p, q in zip(x, k)]), 'inputs unchanged')
    H.cover('end')


def scenarios(tier):
    n = 12 if tier == 'quick' else 60
    return [scen('order', order, covers=['end'], bounds='any two dates, years -10000..2200'),
            scen('successor', successor, covers=['day', 'month', 'year'], bounds='any date and its successor'),
            scen('elementwise', elementwise, p={'n': n}, covers=['end'], bounds='%d dates at once' % n)]
