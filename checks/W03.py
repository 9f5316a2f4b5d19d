"""W03: a source keeps exactly the events inside its polygon, in order."""
from vp.harness import scen

ASSUMPTIONS = ['shapely is a stand-in: validity by the real library, strict containment encoded exactly; replays use the real library',
               'events within 1e-6 of a slanted edge are left out (axis-parallel edges and corners are included)']
POLYS = {
    'square': [(0, 0), (4, 0), (4, 4), (0, 4)],
    'square-closed': [(-2, -2), (-2, 3), (3, 3), (3, -2), (-2, -2)],
    'triangle': [(100, -10), (120, -10), (110, 20), (100, -10)],
    'l-shape': [(0, 0), (6, 0), (6, 2), (2, 2), (2, 6), (0, 6), (0, 0)],
    'wide': [(-180, -90), (180, -90), (180, 90), (-180, 90), (-180, -90)],
    'tall': [(20, -5), (24, -5), (24, 30), (20, 30)],
    'concave': [(0, 0), (10, 0), (10, 10), (5, 2), (0, 10), (0, 0)],
    'star': [(10, 50), (11, 53), (14, 53), (12, 55), (13, 58), (10, 56), (7, 58), (8, 55), (6, 53), (9, 53)],
    'comb': [(0, 0), (7, 0), (7, 4), (6, 4), (6, 1), (4, 1), (4, 4), (3, 4), (3, 1), (1, 1), (1, 4), (0, 4)],
}
BAD = [[(0, 0), (4, 4), (4, 0), (0, 4), (0, 0)], [(0, 0), (4, 0), (2, 2), (4, 4), (0, 4), (3, 2), (0, 0)],
       [(0, 0), (4, 0), (4, 4), (2, -1), (0, 4)]]


def edges(ring):
    r = ring if ring[0] != ring[-1] else ring[:-1]
    return list(zip(r, r[1:] + r[:1]))


def side(e, x, y):
    (x1, y1), (x2, y2) = e
    return (x2 - x1) * (y - y1) - (y2 - y1) * (x - x1)


def inside(H, ring, x, y):
    """Winding number not zero, and not on an edge."""
    on, w = [], 0
    for e in edges(ring):
        (x1, y1), (x2, y2) = e
        s = side(e, x, y)
        on.append(H.And(s == 0, x >= min(x1, x2), x <= max(x1, x2), y >= min(y1, y2), y <= max(y1, y2)))
        if y1 < y2:
            w = w + H.ite(H.And(y >= y1, y < y2, s > 0), 1, 0)
        elif y1 > y2:
            w = w - H.ite(H.And(y >= y2, y < y1, s < 0), 1, 0)
    return H.And(H.Not(w == 0), H.Not(H.Or(*on)))


def make(H, pts):
    m = H.mod('mtoolkit.source_model')
    s = m.default_area_source()
    s.area_boundary = m.AREA_BOUNDARY('urn:ogc:def:crs:EPSG::4326', [m.POINT(*p) for p in pts])
    return s


def events(H, m):
    rows = []
    for i in range(m):
        r = H.reals('row%d_' % i, 7, -5000, 5000)
        r[3], r[4] = H.real('lon%d' % i, -180, 180), H.real('lat%d' % i, -90, 90)
        rows.append(r)
    return rows


def keep(H):
    f = H.mod('mtoolkit.catalog_filter').SourceModelCatalogFilter()
    name = H.p['polygon']
    ring, m = POLYS[name], H.p['m']
    rows = events(H, m)
    if 'more' in H.p:
        few = [[1900.0 + i, 1 + i % 12, 1 + i % 28, (i * 37) % 29 / 2.0 - 2.25, (i * 17) % 23 / 2.0 - 2.25, i % 9 / 2.0, 0.1] for i in range(H.p['more'])]
        rows = [rows[0]] + few[::2] + rows[1:] + few[1::2]
        m = len(rows)
    for r in rows:
        for e in edges(ring):
            if e[0][0] != e[1][0] and e[0][1] != e[1][1]:
                s = side(e, r[3], r[4])
                H.assume(H.Or(s > 1e-5, s < -1e-5))
    ins = [inside(H, ring, r[3], r[4]) for r in rows]
    sm = make(H, ring)
    cat = H.arr(rows) if m else H.np.zeros((0, 7))
    got, x = H.call(f.filter_eqs, sm, cat)
    H.check(x is None, 'filters')
    if x is not None:
        return
    H.check(len(got) == H.count(ins), 'as many events as lie inside')
    want = [r for r, c in zip(rows, ins) if H.decide(c)]
    H.check(len(got) == len(want), 'exactly the events inside')
    if want and len(got) == len(want):
        H.eq(got, H.arr(want), 'in order and unchanged', tol=0)
    if m:
        H.eq(cat, H.arr(rows), 'the catalogue is left alone', tol=0)
        again, _ = H.call(f.filter_eqs, make(H, POLYS['wide']), cat)
        n = H.count([inside(H, POLYS['wide'], r[3], r[4]) for r in rows])
        H.check(len(again) == n, 'each source by its own polygon')
    H.cover('none' if not want else 'some')


def invalid(H):
    f = H.mod('mtoolkit.catalog_filter').SourceModelCatalogFilter()
    ring = H.choice('polygon', BAD)
    rows = events(H, 1)
    _, x = H.call(f.filter_eqs, make(H, ring), H.arr(rows))
    H.check(x is not None, 'an invalid polygon is refused')
    H.cover('end')


def null(H):
    m = H.mod('mtoolkit.catalog_filter')
    n = H.p['m']
    rows = events(H, n)
    cat = H.arr(rows)
    sms = [make(H, POLYS['triangle']), H.mod('mtoolkit.source_model').default_area_source(), make(H, BAD[0])]
    pairs, x = H.call(lambda: list(m.CatalogFilter().filter_eqs(sms, cat)))
    H.check(x is None, 'filters')
    if x is not None:
        return
    H.check(len(pairs) == 3 and all(p[0] is s for p, s in zip(pairs, sms)), 'every source, in order')
    for p in pairs:
        H.eq(p[1], H.arr(rows), 'the whole catalogue', tol=0)
    H.cover('end')


def pairs(H):
    """Each source of a model is paired with its own events."""
    m = H.mod('mtoolkit.catalog_filter')
    names = ['square', 'l-shape', 'tall']
    sms = [make(H, POLYS[n]) for n in names]
    rows = events(H, 1)
    got, x = H.call(lambda: [(s, list(e)) for s, e in m.CatalogFilter(m.SourceModelCatalogFilter()).filter_eqs(sms, H.arr(rows))])
    H.check(x is None, 'filters')
    if x is not None:
        return
    H.check(len(got) == 3 and all(a is s for (a, e), s in zip(got, sms)), 'every source, in order')
    for (s, e), n in zip(got, names):
        H.check(H.Iff(len(e) == 1, inside(H, POLYS[n], rows[0][3], rows[0][4])), 'each with its own events')
    H.cover('end')


def scenarios(tier):
    t = tier != 'quick'
    out = []
    for n in sorted(POLYS):
        m = 2 if not t else 3
        out.append(scen(n, keep, p={'polygon': n, 'm': m}, covers=['none', 'some'],
                        bounds='%d events anywhere on the globe, polygon of %d vertices' % (m, len(edges(POLYS[n])))))
    k = 400 if t else 120
    out += [scen('many', keep, p={'polygon': 'l-shape', 'm': 2, 'more': k}, covers=['some'],
                 bounds='%d events, two of them anywhere on the globe' % (k + 2)),
            scen('no-events', keep, p={'polygon': 'square', 'm': 0}, covers=['none'], bounds='an empty catalogue'),
            scen('invalid', invalid, covers=['end'], bounds='%d self-crossing polygons, an event anywhere' % len(BAD)),
            scen('null', null, p={'m': 3}, covers=['end'], bounds='3 events anywhere, 3 sources'),
            scen('pairs', pairs, covers=['end'], bounds='3 sources, an event anywhere')]
    return out
