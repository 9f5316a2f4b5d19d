"""T03: Julian dates."""
from vp.harness import scen


def leap(H, y):
    m = lambda k: H.eqv(H.floor(y / H.num(float(k))) * k, y)
    return H.And(m(4), H.Or(H.Not(m(100)), m(400)))


def mlen(H, y, m):
    if m == 2:
        return H.ite(leap(H, y), 29, 28)
    return 30 if m in (4, 6, 9, 11) else 31


def jd(H, f, *a):
    """As scalars, or as arrays of one element."""
    if H.p['arrays']:
        r = f(*[H.arr([H.num(x)], 'f') for x in a])
        return r[0]
    return f(*a)


def successor(H):
    f = H.mod('mtoolkit.scientific.catalogue_utilities').greg2julian
    y = H.int('year', 1583, 3999)
    m = H.choice('month', list(range(1, 13)))
    d = H.int('day', 1, 31)
    n = mlen(H, y, m)
    H.assume(d <= n)
    h, mi, s = H.int('hour', 0, 23), H.int('minute', 0, 59), H.real('second', 0, 60)
    a = jd(H, f, y, m, d, h, mi, s)
    if H.decide(d == n):
        nxt = (y, m + 1, 1) if m < 12 else (y + 1, 1, 1)
        H.cover('month end' if m < 12 else 'year end')
    else:
        nxt = (y, m, d + 1)
        H.cover('within month')
    b = jd(H, f, *(nxt + (h, mi, s)))
    H.check(H.abs(b - a - 1) <= 1e-6, 'the next day is one later')
    c = jd(H, f, y, m, d, 0, 0, 0.0)
    H.check(H.abs(a - c - (h / 24.0 + mi / 1440.0 + s / 86400.0)) <= 1e-6, 'time of day adds its fraction')


def anchor(H):
    f = H.mod('mtoolkit.scientific.catalogue_utilities').greg2julian
    H.check(H.abs(jd(H, f, 2000, 1, 1, 12, 0, 0.0) - 2451545.0) <= 1e-6, 'epoch J2000')
    H.check(H.abs(jd(H, f, 1970, 1, 1, 0, 0, 0.0) - 2440587.5) <= 1e-6, 'Unix epoch')
    H.cover('end')



def several(H):
    """Dates in arrays: each value is that of its own date."""
    f = H.mod('mtoolkit.scientific.catalogue_utilities').greg2julian
    n = H.p['n']
    ds = [[H.int('year%d' % i, 1583, 3999), H.int('month%d' % i, 1, 12), H.int('day%d' % i, 1, 28), H.int('hour%d' % i, 0, 23),
           H.int('minute%d' % i, 0, 59), H.real('second%d' % i, 0, 60)] if not H.p.get('fixed') or i == n // 2 else
          [1600 + i * 83 % 500, 1 + i * 5 % 12, 1 + i * 7 % 28, i * 11 % 24, i * 13 % 60, i * 17 % 240 / 4.0] for i in range(n)]
    cols = [H.arr([H.num(d[j]) * H.num(1.0) for d in ds], 'f') for j in range(6)]
    r, x = H.call(f, *cols)
    H.check(x is None and H.shape(r) == (n,), 'one value for each date')
    if x is None:
        for i, d in enumerate(ds):
            H.check(H.abs(r[i] - f(*d)) <= 1e-6, 'value depends on its own date')
        H.check(H.And(*[H.eqv(cols[j][i], ds[i][j]) for i in range(n) for j in range(6)]), 'dates unchanged')
    H.cover('end')


def scenarios(tier):
    out = []
    for arr in (False, True):
        p = {'arrays': arr}
        t = 'arrays' if arr else 'scalars'
        out += [scen('successor-' + t, successor, p=p, covers=['month end', 'year end', 'within month'],
                     bounds='every day from 1583-01-01 to 3999-12-31, any time of day'),
                scen('anchor-' + t, anchor, p=p, covers=['end'], bounds='concrete')]
    n = 2 if tier == 'quick' else 4
    out.append(scen('several', several, p={'n': n}, covers=['end'], bounds='%d dates at once, days 1 to 28, years 1583 to 3999' % n))
    n = 150 if tier == 'quick' else 600
    out.append(scen('many', several, p={'n': n, 'fixed': True}, covers=['end'], bounds='%d dates at once, one of them any as above' % n))
    return out
