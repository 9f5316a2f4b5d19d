"""R01: recurrence table."""
from vp.harness import scen
from vp.domain import long_events

ASSUMPTIONS = ['magnitudes are picked from stated tables; years are any integers of a stated range']


def body(H):
    p = H.p
    n, dm = p['n'], p['dm']
    mag = [H.pick('mag%d' % i, p['mags']) for i in range(n)]
    if p.get('ends'):
        H.assume(H.And(mag[0] == p['mags'][0], mag[-1] == p['mags'][-1]))
    year = [H.pick('year%d' % i, p['ytab'], 'i') if p.get('ytab') else H.int('year%d' % i, *p.get('span', (1900, 2000))) for i in range(n)]
    if p.get('more'):
        ys, ms = long_events(p['more'], p['grid'], list(range(1910, 1990)))
        mag, year = mag[:1] + [H.num(m) for m in ms] + mag[1:], year[:1] + [H.num(v) for v in ys] + year[1:]
        n = len(mag)
    a, y = H.arr(mag), H.arr([H.num(x) * H.num(1.0) for x in year], 'f')
    tab, x = H.call(H.mod('mtoolkit.scientific.recurrence').recurrence_table, a, dm, y)
    H.check(x is None, 'no exception')
    if x is not None:
        return
    rows = H.shape(tab)[0]
    H.check(len(H.shape(tab)) == 2 and H.shape(tab)[1] == 5 and rows >= 1, 'five columns')
    span = H.max(year) - H.min(year) + 1
    tick = H.rint(tab[0, 0] * 10000)            # centres in ten-thousandths
    lo0 = tick - round(dm * 5000)
    cnt = []
    for k in range(rows):
        H.eq(tab[k, 0], (lo0 + round(dm * 5000) + k * round(dm * 10000)) / 10000.0, 'interval centres, one interval apart')
        lo = lo0 + k * round(dm * 10000)
        c = H.count([H.And(H.rint(m * 10000) >= lo, H.rint(m * 10000) < lo + round(dm * 10000)) for m in mag])
        cnt.append(c)
        H.check(tab[k, 1] == c, 'count of the events in the interval')
    H.check(sum(cnt) == n, 'every event is in an interval')
    for k in range(rows):
        cum = sum(cnt[k:])
        H.check(tab[k, 2] == cum, 'cumulative count')
        H.eq(tab[k, 3] * span, cnt[k], 'annual count')
        H.eq(tab[k, 4] * span, cum, 'annual cumulative count')
    H.check(H.And(*[H.And(a[i] == mag[i], y[i] == year[i]) for i in range(n)]), 'inputs unchanged')
    H.cover('end')


def scenarios(tier):
    t = tier != 'quick'
    P = [('half', dict(n=3, dm=0.5, mags=[4.0, 4.26, 4.5, 4.75, 5.5])), ('one', dict(n=1, dm=0.5, mags=[4.0, 4.26, 4.5])),
         ('unit', dict(n=4 if t else 3, dm=1.0, mags=[4.0, 4.5, 5.0, 5.25, 7.75])),
         ('tenths', dict(n=3, dm=0.1, mags=[4.0, 4.1, 4.2, 4.3, 4.4, 4.47], float=True)),
         ('fifths', dict(n=3, dm=0.2, mags=[3.0, 3.1, 3.4, 3.6, 4.0], float=True))]
    P += [('low', dict(n=2, dm=0.5, mags=[-1.24, -0.5, 0.0, 0.25, 0.76], span=(-500, 2010))), ('quarter', dict(n=3, dm=0.25, mags=[4.0, 4.25, 4.5, 4.625])),
          ('eighth', dict(n=2, dm=0.125, mags=[4.0, 4.12, 4.13, 4.26, 4.38, 4.63])),
          ('fortieth', dict(n=2, dm=0.025, mags=[4.0, 4.01, 4.03, 4.08, 4.11, 4.14], float=True))]
    G = [3.0 + i * 0.1 for i in range(51)]
    P += [('many', dict(n=2, ytab=[1905, 1950, 2003], span=[1905, 1950, 2003], dm=0.1, mags=[3.0, 4.7, 8.1], more=400 if t else 300, grid=[round(g, 1) for g in G], float=True)),
          ('many-half', dict(n=2, ytab=[1905, 1950, 2003], span=[1905, 1950, 2003], dm=0.5, mags=[4.0, 5.5, 9.26], more=300 if t else 60, grid=[4.0, 4.25, 4.5, 5.0, 5.26, 6.0, 7.5]))]
    if t:
        P += [('five', dict(n=5, dm=0.5, mags=[4.0, 4.26, 5.0, 5.5])), ('quarter4', dict(n=4, dm=0.25, mags=[4.0, 4.25, 4.5, 4.625]))]
    return [scen(n, body, p=p, covers=['end'], bounds='%(n)d events, magnitudes %(mags)s, interval %(dm)s, years %(span)s%(and_more)s' % dict(dict(span='1900..2000', and_more=', and %d fixed ones' % p['more'] if p.get('more') else ''), **p)) for n, p in P]
