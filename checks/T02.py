"""T02: great-circle distance."""
import math
from vp.harness import scen

LON = [-180.0, -90.0, -0.5, 0.0, 45.0, 180.0]
LAT = [-90.0, -30.0, 0.0, 0.25, 60.0, 90.0]
LON4 = [-180.0, -10.0, 0.0, 170.0]
LAT4 = [-90.0, -45.0, 0.0, 60.0]
LON3, LAT3 = [-179.75, 0.0, 60.0], [-60.0, 0.0, 90.0]


def oracle(H, a, b, rad=6371.227, radians=False):
    """Spherical law through chord length: another form of the same distance."""
    k = 1.0 if radians else math.pi / 180
    sin, cos = lambda x: H.fun('sin', x), lambda x: H.fun('cos', x)
    p, q = [(cos(y * k) * cos(x * k), cos(y * k) * sin(x * k), sin(y * k)) for x, y in (a, b)]
    c = H.fun('sqrt', sum_((s - t) * (s - t) for s, t in zip(p, q)))
    h = H.min([c / 2, H.num(1.0)])
    return 2 * rad * H.fun('arcsin', h)


def sum_(it):
    r = None
    for x in it:
        r = x if r is None else r + x
    return r


def pair(H):
    f = H.mod('mtoolkit.scientific.catalogue_utilities').haversine
    a = (H.pick('lon1', LON), H.pick('lat1', LAT))
    b = (H.pick('lon2', LON), H.pick('lat2', LAT))
    d = f(H.arr([a[0]]), H.arr([a[1]]), H.arr([b[0]]), H.arr([b[1]]))
    H.check(H.shape(d) == (1, 1), 'shape')
    d = d[0, 0]
    H.eq(d, oracle(H, a, b), 'great-circle distance', 1e-4)
    H.check(d >= 0, 'not negative')
    H.check(d <= math.pi * 6371.227 + 1e-3, 'at most half the circumference')
    e = f(H.arr([b[0]]), H.arr([b[1]]), H.arr([a[0]]), H.arr([a[1]]))[0, 0]
    H.eq(d, e, 'symmetric', 1e-8)
    H.check(H.Implies(H.And(a[0] == b[0], a[1] == b[1]), d <= 1e-6), 'zero for equal points')
    s = f(H.arr([a[0] + 360]), H.arr([a[1]]), H.arr([b[0]]), H.arr([b[1]]))[0, 0]
    H.eq(d, s, 'unchanged by a full turn of longitude', 1e-4)
    s = f(H.arr([a[0]]), H.arr([a[1]]), H.arr([b[0] - 360]), H.arr([b[1]]))[0, 0]
    H.eq(d, s, 'unchanged by a full turn of longitude', 1e-4)
    H.cover('end')


def near(H):
    """Points metres or less apart: the distance is accurate to a centimetre."""
    f = H.mod('mtoolkit.scientific.catalogue_utilities').haversine
    lon, lat = H.pick('lon', [-179.999, -70.5, 12.25, 180.0]), H.pick('lat', [-89.5, -33.3, 0.0, 47.125])
    dx, dy = H.pick('dx', [0.0, 1e-6, -0.0001, 0.002]), H.pick('dy', [0.0, 1e-7, 0.0001, -0.01])
    d, x = H.call(f, H.arr([lon]), H.arr([lat]), H.arr([lon + dx]), H.arr([lat + dy]))
    H.check(x is None, 'no exception')
    if x is None:
        H.eq(d[0, 0], oracle(H, (lon, lat), (lon + dx, lat + dy)), 'great-circle distance', 1e-5)
        H.check(H.Implies(H.And(dx == 0, dy == 0), d[0, 0] <= 1e-9), 'zero for equal points')
    H.cover('end')


def far(H):
    """Points almost opposite to each other: half the circumference less the distance to the opposite point, to ten metres."""
    f = H.mod('mtoolkit.scientific.catalogue_utilities').haversine
    lon, lat = H.pick('lon', [-179.5, -70.5, 12.25, 150.0]), H.pick('lat', [-89.0, -33.25, 0.0, 47.125])
    dx, dy = H.pick('dx', [0.0, 0.0005, -0.01, 0.25]), H.pick('dy', [0.0, 0.002, -0.125])
    d, x = H.call(f, H.arr([lon]), H.arr([lat]), H.arr([lon + dx + 180.0]), H.arr([dy - lat]))
    H.check(x is None, 'no exception')
    if x is None:
        H.check(H.abs(d[0, 0] - (math.pi * 6371.227 - oracle(H, (lon, lat), (lon + dx, lat - dy)))) <= 0.01, 'distance of points almost opposite')
    H.cover('end')


def sets(H):
    """Set sizes n1 x n2; scalars as well as arrays; elements independent."""
    f = H.mod('mtoolkit.scientific.catalogue_utilities').haversine
    n1, n2, scalar = H.p['n1'], H.p['n2'], H.p['scalar']
    if H.p.get('many'):
        A = [(H.num(-175.0 + i * 53 % 350), H.num(-88.0 + i * 29 % 176)) for i in range(n1)]
        B = [(H.num(-170.5 + i * 31 % 340), H.num(-80.5 + i * 17 % 160)) for i in range(n2)]
        if n1 > 2 < n2:
            A[-2] = B[n2 // 2]
        A[n1 // 2], B[-1] = (H.pick('lonA', LON4), H.pick('latA', LAT4)), (H.pick('lonB', LON4), H.pick('latB', LAT4))
    else:
        A = [(H.pick('lonA%d' % i, LON4), H.pick('latA%d' % i, LAT4)) for i in range(n1)]
        B = [(H.pick('lonB%d' % i, LON4), H.pick('latB%d' % i, LAT4)) for i in range(n2)]
    c = lambda P, j: H.arr([p[j] for p in P])
    args = [c(A, 0), c(A, 1)] + ([B[0][0], B[0][1]] if scalar else [c(B, 0), c(B, 1)])
    if H.p.get('scalar1'):
        args[:2] = [A[0][0], A[0][1]]
    d = f(*args)
    H.check(H.shape(d) == (n1, n2), 'one distance for each pair')
    for i in range(n1):
        for j in range(n2):
            H.eq(d[i, j], oracle(H, A[i], B[j]), 'element is the distance of its pair', 1e-4)
    for i in range(n1):
        if not H.p.get('scalar1'):
            H.check(H.And(args[0][i] == A[i][0], args[1][i] == A[i][1]), 'inputs unchanged')
    H.cover('end')


def options(H):
    """Radius and radians."""
    f = H.mod('mtoolkit.scientific.catalogue_utilities').haversine
    R = H.pick('radius', [1.0, 6371.0, 100.0])
    rad = H.choice('radians', [True, False])
    A = (H.pick('lon1', LON3), H.pick('lat1', LAT3))
    B = (H.pick('lon2', LON3), H.pick('lat2', LAT3))
    k = math.pi / 180 if rad else 1.0
    a, b = (A[0] * k, A[1] * k), (B[0] * k, B[1] * k)
    d = f(H.arr([a[0]]), H.arr([a[1]]), H.arr([b[0]]), H.arr([b[1]]), radians=rad, earth_rad=R)[0, 0]
    H.eq(d, oracle(H, A, B, R), 'distance on the given sphere', 1e-4)
    H.cover(str(rad))


def scenarios(tier):
    t = tier != 'quick'
    out = [scen('pair', pair, covers=['end'], bounds='6 longitudes x 6 latitudes for each point'),
           scen('options', options, covers=['True', 'False'], bounds='3 x 3 coordinates, 3 radii, radians or degrees')]
    out.append(scen('near', near, p={'float': True}, covers=['end'], bounds='4 x 4 locations, 4 x 4 offsets between nothing and a kilometre, in double arithmetic'))
    out.append(scen('far', far, p={'float': True}, covers=['end'], bounds='4 x 4 locations and points within 4 x 3 offsets of those opposite, in double arithmetic'))
    for n1, n2, sc, s1 in [(2, 2, False, False), (3, 1, True, False), (1, 1, True, True), (1, 2, False, False)] + \
            ([(4, 3, False, False), (2, 5, False, False)] if t else []):
        out.append(scen('sets-%d-%d%s%s' % (n1, n2, '-scalar' if sc else '', '1' if s1 else ''), sets,
                        p={'n1': n1, 'n2': n2, 'scalar': sc, 'scalar1': s1}, covers=['end'],
                        bounds='%d x %d points, 4 longitudes x 4 latitudes each' % (n1, n2)))
    for n1, n2 in [(24, 20), (130, 1), (1, 130)] + ([(60, 50), (600, 1), (1, 600)] if t else []):
        out.append(scen('many-%d-%d' % (n1, n2), sets, p={'n1': n1, 'n2': n2, 'scalar': False, 'many': True}, covers=['end'],
                        bounds='%d x %d points, one of each set any of 4 longitudes x 4 latitudes' % (n1, n2)))
    return out
