"""R04: preparation of the Weichert table."""
from vp.harness import scen
from vp.domain import long_events

ASSUMPTIONS = ['the completeness table has ascending magnitudes, the first not above the smallest magnitude of the events; '
               'years and magnitudes are picked from stated tables']


def tables(n, years, mags):
    """All completeness tables of n rows over the given years (any) and magnitudes (ascending)."""
    out = [[]]
    for _ in range(n):
        out = [t + [(y, m)] for t in out for y in years for m in mags if not t or m > t[-1][1]]
    return out


def body(H):
    p = H.p
    n, dm, dt = p['n'], p['dm'], p['dt']
    if p.get('mags'):
        mag = [H.pick('mag%d' % i, p['mags']) for i in range(n)]
    else:
        mag = [H.num(m) for m in H.choice('mags', p['mpat'])]
    if p.get('years'):
        year = [H.pick('year%d' % i, p['years'], 'i') for i in range(n)]
    else:
        year = [H.num(y) for y in H.choice('years', p['ypat'])]
    if p.get('more'):
        ys, ms = long_events(p['more'], p['grid'], list(range(1935, 1991)))
        mag, year = mag + [H.num(m) for m in ms], year + [H.num(y) for y in ys]
        n = len(mag)
    table = H.choice('table', p['tables'])
    f = H.mod('mtoolkit.scientific.recurrence').weichert_prep
    fy, fm = H.arr([y * H.num(1.0) for y in year], 'f'), H.arr(mag, 'f')
    ct, cm = H.arr([H.num(float(y)) for y, _ in table], 'f'), H.arr([H.num(m) for _, m in table], 'f')
    # magnitudes to one decimal, in thousandths
    w = round(dm * 1000)
    tick = [H.rint(m * 10) * 100 for m in mag]
    t0, y0, last = H.min(tick), H.min(year), H.max(year)
    H.assume(t0 >= round(table[0][1] * 1000))
    if p.get('wrong'):
        r, x = H.call(f, fy, fm, ct, cm[:-1] if p['wrong'] == 'short' else H.arr([H.num(m) for _, m in table] + [9.0], 'f'), dm, dt)
        H.check(x is not None, 'columns of different length are refused')
        H.cover('refused')
        return
    r, x = H.call(f, fy, fm, ct, cm, dm, dt)
    H.check(x is None, 'no exception')
    if x is not None:
        return
    cent, tper, nobs = r
    k = H.shape(cent)[0]
    H.check(H.shape(tper) == (k,) and H.shape(nobs) == (k,) and k >= 1, 'one row per interval')
    # the interval of each event, and whether it is complete
    tb = [H.floor((y - y0) * H.num(1.0) / dt) for y in year]
    mb = [H.floor((t - t0) / w) for t in tick]
    keep = []
    for i in range(n):
        out = [H.And((y0 + tb[i] * dt) < H.num(float(y)), t0 + mb[i] * w < round(m * 1000)) for y, m in table]
        keep.append(H.Not(H.Or(*out)))
    for j in range(k):
        H.eq(cent[j], (t0 + j * w) / 1000.0 + dm / 2.0, 'interval centres')
        H.check(nobs[j] == H.count([H.And(keep[i], mb[i] == j) for i in range(n)]), 'complete events of the interval')
        c = H.num(table[0][0])
        for y, m in table[1:]:
            c = H.ite(round(m * 1000) <= t0 + j * w, H.num(y), c)
        H.check(tper[j] == last - c + 1, 'observation period')
    H.check(k <= H.floor((H.max(tick) - t0) / w) + 2, 'at most one interval beyond the largest magnitude')
    H.check(H.And(*[H.Implies(keep[i], mb[i] < k) for i in range(n)]), 'every complete event is counted')
    H.cover('end')
    if len(table) > 1 and H.decide(H.Or(*[H.Not(z) for z in keep])):
        H.cover('incomplete')


def scenarios(tier):
    t = tier != 'quick'
    T = tables(1, [1950, 1970], [4.0]) + tables(2, [1950, 1960, 1975], [4.0, 4.5, 5.0])[:14]
    T2 = [[(1970, 4.0), (1950, 5.0)], [(1980, 4.0), (1965, 4.5), (1950, 5.0)], [(1950, 4.0), (1975, 4.5)]]
    Y, M = [1948, 1950, 1963, 1975], [4.0, 4.26, 4.5, 5.0, 5.5]
    YP = [[1955, 1975, 1962], [1981, 1950, 1949]]
    P = [('years', dict(n=3, dm=0.5, dt=1.0, years=Y, mpat=[[4.0, 4.75, 5.0]], tables=T2)),
         ('mags', dict(n=3, dm=0.5, dt=1.0, mags=M, ypat=YP, tables=T2)),
         ('both', dict(n=2, dm=0.5, dt=5.0, years=[1947, 1950, 1958, 1963], mags=[4.0, 4.5, 5.0], tables=T2)),
         ('tables', dict(n=4, dm=0.5, dt=10.0, ypat=[[1955, 1975, 1962, 1990], [1971, 1949, 1960, 1959]], mpat=[[4.5, 4.75, 5.5, 4.0]], tables=T)),
         ('tenths', dict(n=2, dm=0.1, dt=1.0, mags=[4.0, 4.1, 4.2, 4.3, 4.47, 4.6], ypat=[[1955, 1975]], float=True,
                         tables=[[(1980, 4.0), (1965, 4.3), (1950, 4.6)], [(1970, 3.9), (1950, 4.2)]])),
         ('fifths', dict(n=3, dm=0.2, dt=2.0, mags=[3.1, 3.3, 3.5, 3.9], ypat=[[1955, 1975, 1960]], float=True,
                         tables=[[(1980, 3.1), (1958, 3.5)], [(1970, 3.0), (1961, 3.3)]])),
         ('inside', dict(n=2, dm=0.1, dt=1.0, mags=[4.0, 4.1, 4.2, 4.3, 4.47], ypat=[[1955, 1975], [1983, 1949]], float=True,
                         tables=[[(1980, 3.96), (1965, 4.14), (1950, 4.26)], [(1970, 4.0), (1950, 4.203)], [(1970, 3.9), (1950, 4.197)], [(1950, 3.9), (1970, 4.25)]])),
         ('inside-half', dict(n=3, dm=0.5, dt=5.0, mags=[4.0, 4.5, 5.2], ypat=YP, tables=[[(1970, 3.76), (1950, 4.74)], [(1970, 4.0), (1950, 4.503)], [(1970, 3.5), (1960, 4.26), (1950, 4.9)]])),
         ('short', dict(n=2, dm=0.5, dt=1.0, years=Y, mpat=[[4.0, 4.75]], tables=T2, wrong='short')),
         ('long', dict(n=2, dm=0.5, dt=1.0, years=Y, mpat=[[4.0, 4.75]], tables=T2, wrong='long'))]
    P += [('many', dict(n=2, dm=0.5, dt=5.0, years=[1930, 1960, 1995], mags=[4.0, 5.0, 8.5], more=300, grid=[4.0, 4.25, 4.5, 5.0, 5.5, 6.0, 7.25], tables=T2))]
    if t:
        P += [('years4', dict(n=4, dm=0.5, dt=5.0, years=Y, mpat=[[4.0, 4.75, 5.0, 4.5]], tables=T2)),
              ('mags4', dict(n=4, dm=0.5, dt=1.0, mags=M[:4], ypat=[[1955, 1975, 1962, 1949]], tables=T2)),
              ('quarter', dict(n=3, dm=0.25, dt=1.0, mags=[4.0, 4.25, 4.375, 4.5, 5.0], ypat=YP, tables=T2[:2]))]
    out = []
    for nm, p in P:
        cov = ['refused'] if p.get('wrong') else ['end', 'incomplete']
        out.append(scen(nm, body, p=p, covers=cov, bounds=('%d fixed events and ' % p['more'] if p.get('more') else '') + '%d events, years %s, magnitudes %s, intervals %s and %s years, %d completeness tables' % (
            p['n'], p.get('years') or p['ypat'], p.get('mags') or p['mpat'], p['dm'], p['dt'], len(p['tables']))))
    return out
