"""G01: a simple fault is accepted exactly when its geometry is valid."""
from vp.harness import scen


def accept(H):
    F = H.mod('mtoolkit.geo.simple_fault').SimpleFaultGeo
    n = H.p['n']
    lon, lat = [H.reals(c, n, -1000, 1000) if n <= 10 else
                [H.real(c, -1000, 1000) if i == n * 3 // 4 else H.num(i / 4.0) for i in range(n)] for c in ('lon', 'lat')]
    up, low, dip = H.real('upper', -1000, 1000), H.real('lower', -1000, 1000), H.real('dip', -400, 400)
    if H.p['good']:
        # every point valid: depths and dip decide
        for x, y in zip(lon, lat):
            H.assume(H.And(x >= -180, x <= 180, y >= -90, y <= 90))
    kind = H.choice('sequence', [list, tuple])
    trace = kind([(x, y) for x, y in zip(lon, lat)])
    f, x = H.call(F, trace, up, low, dip)
    ok = H.And(n >= 2, up >= 0, low > up, dip > 0, dip <= 90,
               *[H.And(a >= -180, a <= 180, b >= -90, b <= 90) for a, b in zip(lon, lat)])
    if x is None:
        H.check(ok, 'an invalid geometry is refused')
        H.check(len(trace) == n and trace == kind([(x, y) for x, y in zip(lon, lat)]) if not H.symbolic else
                H.And(*[H.And(H.eqv(p[0], a), H.eqv(p[1], b)) for p, a, b in zip(trace, lon, lat)]),
                'the trace is left alone')
    else:
        H.check(H.Not(ok), 'a valid geometry is accepted')
        H.check(isinstance(x, ValueError), 'refused with a ValueError')
    H.cover('accepted' if x is None else 'refused')


def special(H):
    """One number which is not finite, or next to a limit, among valid ones."""
    F = H.mod('mtoolkit.geo.simple_fault').SimpleFaultGeo
    v = H.choice('special', ['nan', 'inf', '-inf', '-0.0', '5e-324', '-5e-324', '180.00000000000003', '-180.00000000000003', '90.00000000000001', '-90.00000000000001'])
    where = H.choice('where', ['lon', 'lat', 'upper', 'lower', 'dip'])
    n = H.choice('points', [2, 3, 5])
    i = H.choice('index', list(range(n))) if where in ('lon', 'lat') else 0
    v = float(v)
    lon, lat = H.reals('lon', n, -180, 180), H.reals('lat', n, -90, 90)
    up, low, dip = H.real('upper', 0, 50), H.real('lower', 60, 100), H.real('dip', 1, 90)
    if where == 'lon':
        lon[i] = v
        ok = abs(v) <= 180
    elif where == 'lat':
        lat[i] = v
        ok = abs(v) <= 90
    elif where == 'upper':
        up = v
        ok = v >= 0 and low > v
    elif where == 'lower':
        low = v
        ok = v > up
    else:
        dip = v
        ok = 0 < v <= 90
    f, x = H.call(F, list(zip(lon, lat)), up, low, dip)
    if x is None:
        H.check(ok, 'an invalid geometry is refused')
    else:
        H.check(H.Not(ok), 'a valid geometry is accepted')
        H.check(isinstance(x, ValueError), 'refused with a ValueError')
    H.cover('accepted' if x is None else 'refused')


def scenarios(tier):
    out = [scen('special', special, covers=['accepted', 'refused'],
                bounds='2-5 valid points, depths and dip of any values, one of them replaced by nan, +-inf, +-0 or a neighbour of a limit')]
    for n in ([0, 1, 2, 3, 4, 5, 6] if tier == 'quick' else [0, 1, 2, 3, 4, 5, 6, 8, 10]):
        for good in ((False, True) if n >= 2 else (False,)):
            out.append(scen('points-%d%s' % (n, '-good' if good else ''), accept, p={'n': n, 'good': good},
                            covers=['refused'] + (['accepted'] if n >= 2 else []),
                            bounds='%d points anywhere in +-1000, any depths in +-1000, any dip in +-400%s' % (
                                n, ', points valid' if good else '')))
    for n in [60] if tier == 'quick' else [60, 300]:
        out.append(scen('points-%d' % n, accept, p={'n': n, 'good': False}, covers=['refused', 'accepted'],
                        bounds='%d points, one of them anywhere in +-1000, any depths and dip as above' % n))
    return out
