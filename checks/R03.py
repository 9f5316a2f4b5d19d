"""R03: MLE recurrence over completeness periods."""
import math
from vp.harness import scen
from vp.domain import long_events

ASSUMPTIONS = ['each completeness period has at least two events in intervals whose centre is not below its completeness magnitude; magnitudes are picked from stated tables, years are integers of a stated range']
LOG10E = math.log10(math.e)


def estimate(H, mags, dm, mc):
    """b and its error from the definition, for magnitudes at or above mc (tables of numbers)."""
    tick = [H.rint(m * 10000) for m in mags]
    lo = H.floor(H.min(tick) / 1000) * 1000
    w = round(dm * 10000)
    c = [(H.floor((t - lo) / w) * w + lo + w // 2) / 10000.0 for t in tick]
    # intervals (not events) from the first whose centre is not below mc
    keep = []
    lowest = None
    for k in range(H.p['rows']):
        ck = (lo + k * w + w // 2) / 10000.0
        ok = H.decide(ck >= mc)
        if ok:
            lowest = ck
            break
    keep = [x for x in c if H.decide(x >= lowest - 1e-9)]
    n = len(keep)
    H.assume(n >= 2)
    if n < 2:
        return 0, 0
    mean = H.sum(keep) / n
    b = LOG10E / (mean - lowest + dm / 2.0)
    v = H.sum([(x - mean) * (x - mean) for x in keep]) / (n * (n - 1))
    return b, 2.3 * b * b * H.fun('sqrt', v)


def body(H):
    p = H.p
    n, dm = p['n'], p['dm']
    if p.get('patterns'):
        mag = [H.num(m) for m in H.choice('mags', p['patterns'])]
    else:
        mag = [H.pick('mag%d' % i, p['mags']) for i in range(n)]
    if p.get('ytab'):
        year = [H.pick('year%d' % i, p['ytab'], 'i') for i in range(n)]
    elif p['years'] == 'any':
        year = [H.int('year%d' % i, p['y0'], p['y1']) for i in range(n)]
    else:
        year = [H.num(y) for y in H.choice('years', p['years'])]
    if p.get('more'):
        ys, ms = long_events(p['more'], p['grid'], list(range(1930, 1991)))
        mag, year = mag + [H.num(m) for m in ms], year + [H.num(y) for y in ys]
        n = len(mag)
    table = H.choice('table', p['tables'])
    ref = H.choice('ref', p['refs'])
    # the events of each period
    done, periods = [], []
    for y, _ in table:
        if y in done:
            continue
        done.append(y)
        mc = min(m for z, m in table if z == y)
        sel = [i for i in range(n) if H.decide(year[i] * H.num(1.0) >= y) and H.decide(mag[i] >= mc - 1e-5)]
        H.assume(len(sel) >= 2)
        if len(sel) < 2:
            return
        periods.append((mc, sel))
    f = H.mod('mtoolkit.scientific.recurrence').b_maxlike_time
    ct, cm = H.arr([H.num(float(y)) for y, _ in table], 'f'), H.arr([H.num(m) for _, m in table], 'f')
    args = [H.arr([y * H.num(1.0) for y in year], 'f'), H.arr(mag, 'f'), ct, cm, dm] + ([ref] if ref else [])
    r, x = H.call(f, *args)
    H.check(x is None, 'no exception')
    if x is not None:
        return
    want = [H.num(0.0)] * 4
    total = sum(len(s) for _, s in periods)
    for mc, sel in periods:
        b, sb = estimate(H, [mag[i] for i in sel], dm, mc)
        ys = [year[i] for i in sel]
        span = H.max(ys) - H.min(ys) + 1
        if p.get('years') == 'any':
            want[0], want[1] = want[0] + b * len(sel) / total, want[1] + sb * len(sel) / total
            continue
        rate = len(sel) / (span * H.num(1.0)) * H.fun('power', 10.0, b * (mc - ref))
        sig = H.fun('power', 10.0, H.abs((b + sb) * ref - b * mc))
        for k, v in enumerate((b, sb, rate, sig)):
            want[k] = want[k] + v * len(sel) / total
    if p.get('years') == 'any':
        H.eq(r[0], want[0], 'b-value: weighted average over the periods', 1e-5)
        H.eq(r[1], want[1], 'error of b: weighted average over the periods', 1e-5)
        H.cover('%d periods' % len(periods))
        return
    for k, name in enumerate(('b-value', 'error of b', 'annual rate above the reference magnitude', 'error of the rate')):
        H.eq(r[k], want[k], name + ': weighted average over the periods', 1e-5)
    H.cover('%d periods' % len(periods))


T1 = [[(1950, 4.0)], [(1970, 4.0), (1950, 5.0)]]
T3 = [[(1970, 4.0), (1970, 4.5), (1950, 5.0)], [(1970, 4.5), (1950, 4.0), (1970, 4.0)], [(1950, 4.5), (1950, 4.0)],
      [(1980, 4.0), (1965, 4.5), (1950, 5.0)]]


def scenarios(tier):
    t = tier != 'quick'
    cov = ['1 periods', '2 periods']
    out = [scen('years', body, p=dict(n=4, dm=0.5, rows=8, eager=True, patterns=[[4.0, 4.75, 5.0, 5.25], [5.25, 5.75, 6.5, 5.0]], years='any', y0=1940, y1=1990,
                                      tables=T1, refs=[0.0]), covers=cov, bounds='4 events, any years 1940..1990, 2 sets of magnitudes, 1 or 2 periods; b-value'),
           scen('year-table', body, p=dict(n=4, dm=0.5, rows=8, eager=True, patterns=[[4.0, 4.75, 5.0, 5.25], [5.25, 5.75, 6.5, 5.0]], ytab=[1941, 1950, 1969, 1970, 1987],
                                      tables=T1, refs=[0.0, 5.0]), covers=cov, bounds='4 events, any of 5 years each, 2 sets of magnitudes, 1 or 2 periods'),
           scen('mags', body, p=dict(n=4, dm=0.5, rows=8, eager=True, mags=[4.0, 4.5, 5.25, 6.0], years=[[1955, 1972, 1980, 1990], [1975, 1975, 1951, 1960]],
                                     tables=T1, refs=[0.0, 5.0]), covers=cov, bounds='4 events, any of 4 magnitudes each, 2 sets of years, 1 or 2 periods'),
           scen('tables', body, p=dict(n=5, dm=0.5, rows=8, eager=True, patterns=[[4.25, 5.0, 5.5, 4.75, 5.0]], years=[[1955, 1972, 1985, 1990, 1990], [1981, 1949, 1990, 1970, 1960]],
                                       tables=T1 + T3, refs=[0.0, 4.5]), covers=cov, bounds='5 events, 6 completeness tables, repeated and unordered years included')]
    out += [scen('between', body, p=dict(n=4, dm=0.1, rows=8, eager=True, mags=[4.37, 4.45, 4.51, 4.72], years=[[1955, 1972, 1980, 1990]],
                                         tables=[[(1950, 4.36)], [(1970, 4.4), (1950, 4.48)], [(1950, 4.3)]], refs=[0.0, 4.3]), covers=cov,
                 bounds='4 events, any of 4 magnitudes each, completeness magnitudes inside magnitude intervals')]
    out += [scen('below', body, p=dict(n=4, dm=0.5, rows=8, eager=True, mags=[3.995, 4.0, 4.4995, 4.5], more=4, grid=[4.25, 4.75, 5.0, 5.5], years=[[1969, 1970, 1971, 1990]],
                                       tables=[[(1970, 4.0), (1950, 4.5)], [(1971, 4.0), (1970, 4.5)]], refs=[0.0]), covers=['2 periods'],
                    bounds='8 events, 4 of any of 4 magnitudes each, completeness magnitudes and years just above those of events')]
    m = 300 if t else 150
    out += [scen('many', body, p=dict(n=2, dm=0.25, rows=30, eager=True, mags=[4.0, 4.75, 7.5], ytab=[1940, 1960, 1990], more=m, grid=[4.0, 4.125, 4.25, 4.5, 4.75, 5.0, 5.5, 6.25],
                                      tables=[T1[1], T3[0], T3[3]], refs=[0.0, 5.0]), covers=['2 periods', '3 periods'],
                 bounds='%d events, two of them of any of 3 magnitudes and years' % (m + 2))]
    if t:
        out += [scen('years-tables', body, p=dict(n=5, dm=0.5, rows=8, eager=True, patterns=[[4.25, 5.0, 5.5, 4.75, 5.0]], years='any', y0=1945, y1=1990,
                                                  tables=T1 + T3, refs=[0.0, 4.5]), covers=cov + ['3 periods'], bounds='5 events, any years, 6 completeness tables'),
                scen('mags5', body, p=dict(n=5, dm=0.25, rows=14, eager=True, mags=[4.0, 4.26, 5.5], years=[[1955, 1972, 1980, 1990, 1985]], tables=T1 + T3, refs=[0.0, 5.0]),
                     covers=cov, bounds='5 events, any of 3 magnitudes each')]
    return out
