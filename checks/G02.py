"""G02: fault length, width and area follow from the geometry."""
import math
from vp.harness import scen

ASSUMPTIONS = ['trigonometric functions of tabulated coordinates are those of the platform, tolerance 1e-6 relative']
R = 6371.0
PTS = [(0, 0), (0.5, 0.25), (10, 40), (-10, 40), (179.75, 1), (-179.75, 1), (-120.5, -33.5), (12.5, 89.5), (90, -60), (10, 40.03125)]
MORE = PTS + [(-180, 0), (180, 0), (0, 90), (0, -90), (77, 12), (-77.5, -12.25), (10.0078125, 40), (33, -1), (-5, 66), (150, -75),
              (1, 1), (-1, -1), (100, 0), (-100, 0), (45, 45), (45, -45), (135, 30), (-135, 30), (12.5, 41.875), (13.5, 42.375)]
DIPS = [90, 60, 45, 30, 15, 10, 1, 0.5, 89.5, 75.25, 37.5]


def dist(H, a, b):
    """Arc over the chord of two points on the unit sphere."""
    xyz = []
    for lon, lat in (a, b):
        lo, la = lon * (math.pi / 180), lat * (math.pi / 180)
        c = H.fun('cos', la)
        xyz.append((c * H.fun('cos', lo), c * H.fun('sin', lo), H.fun('sin', la)))
    s = 0
    for u, v in zip(*xyz):
        s = s + (u - v) * (u - v)
    h = H.fun('sqrt', s) / 2
    return 2 * R * H.fun('arcsin', H.min([h, H.num(1.0)]))


def length(H):
    F = H.mod('mtoolkit.geo.simple_fault').SimpleFaultGeo
    n, tab = H.p['n'], H.p['points']
    pts = [H.picks('point%d' % i, tab) if not H.p.get('fixed') or i in (0, n // 2, n - 1) else
           (H.num(-179.0 + i * 67 % 358), H.num(-89.5 + i * 41 % 179)) for i in range(n)]
    f, x = H.call(F, pts, 1.0, 11.0, 30.0)
    H.check(x is None, 'accepted')
    if x is not None:
        return
    L, x = H.call(f.get_length)
    H.check(x is None, 'length computed')
    if x is not None:
        return
    want = H.sum([dist(H, a, b) for a, b in zip(pts, pts[1:])])
    H.check(H.close(L, want), 'the sum of the great-circle distances')
    g, _ = H.call(F, pts[::-1], 1.0, 11.0, 30.0)
    H.check(H.close(g.get_length(), L), 'the same in both directions')
    H.check(H.close(f.get_length(), L), 'the same when asked again')
    H.check(L >= 0, 'not negative')
    H.cover('end')


def antipodes(H):
    """Points on opposite sides of the earth, in double arithmetic: half the circumference."""
    F = H.mod('mtoolkit.geo.simple_fault').SimpleFaultGeo
    lon, lat = H.pick('lon', [-168.98, -100.1, -90.0, -45.0, -10.37, -0.2]), H.pick('lat', [4.28, -4.28, 0.0, 33.3, 89.4, -60.1])
    off = H.pick('off', [0.0, 1e-9, 0.001, -0.5])
    f, x = H.call(F, [(lon, lat), (lon + 180.0, off - lat)], 1.0, 11.0, 30.0)
    L, y = H.call(f.get_length) if x is None else (None, x)
    H.check(x is None and y is None, 'length computed')
    if y is None:
        want = math.pi * R - H.abs(off) * (math.pi / 180 * R)
        H.check(H.abs(L - want) <= 1e-2, 'the great-circle distance')
    H.cover('end')


def width(H):
    F = H.mod('mtoolkit.geo.simple_fault').SimpleFaultGeo
    up, low = H.real('upper', 0, 700), H.real('lower', 0, 800)
    H.assume(low > up)
    dip = H.pick('dip', DIPS if H.p['dips'] is None else H.p['dips'])
    tr = H.choice('trace', [[(0, 0), (0.5, 0.25)], [(10, 40), (-10, 40), (179.75, 1)], [(1, 1), (1, 1)]])
    f, x = H.call(F, tr, up, low, dip)
    H.check(x is None, 'accepted')
    if x is not None:
        return
    w, x = H.call(f.get_width)
    H.check(x is None, 'width computed')
    if x is not None:
        return
    want = (low - up) / H.fun('sin', dip * (math.pi / 180))
    H.check(H.close(w, want), 'the depth range over the sine of the dip')
    a, x = H.call(f.get_area)
    H.check(x is None, 'area computed')
    if x is not None:
        return
    L = sum(2 * R * math.asin(chord(p, q) / 2) for p, q in zip(tr, tr[1:]))
    H.check(H.close(a, want * L), 'length times width')
    H.check(H.close(f.get_width(), want), 'the same when asked again')
    H.cover('end')


def chord(p, q):
    v = []
    for lon, lat in (p, q):
        lo, la = math.radians(lon), math.radians(lat)
        v.append((math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)))
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(*v)))


def scenarios(tier):
    t = tier != 'quick'
    out = [scen('length-2', length, p={'n': 2, 'points': MORE}, covers=['end'], bounds='2 points among %d' % len(MORE)),
           scen('length-3', length, p={'n': 3, 'points': PTS}, covers=['end'], bounds='3 points among %d' % len(PTS)),
           scen('length-4', length, p={'n': 4, 'points': PTS[1:7]}, covers=['end'], bounds='4 points among 6'),
           scen('width', width, p={'dips': None}, covers=['end'], bounds='any depths up to 800 km, %d dips, 3 traces' % len(DIPS))]
    out.append(scen('antipodes', antipodes, p={'float': True}, covers=['end'], bounds='2 points opposite each other or almost: 6 longitudes, 6 latitudes, 4 offsets'))
    n = 40 if not t else 200
    out.append(scen('length-%d' % n, length, p={'n': n, 'points': PTS[1:5], 'fixed': True}, covers=['end'], bounds='%d points, the first, the middle and the last among 4' % n))
    if t:
        out += [scen('length-5', length, p={'n': 5, 'points': PTS[2:6]}, covers=['end'], bounds='5 points among 4'),
                scen('length-6', length, p={'n': 6, 'points': PTS[2:5]}, covers=['end'], bounds='6 points among 3'),
                scen('width-all', width, p={'dips': [x / 2.0 for x in range(1, 181)]}, covers=['end'],
                     bounds='any depths up to 800 km, every half degree of dip, 3 traces')]
    return out
