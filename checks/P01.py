"""P01: results depend only on the arguments, and the arguments are left unchanged."""
import os
from vp.harness import scen
from vp.domain import *
from vp import declust

ASSUMPTIONS = ['the computations themselves are decided by the other checks; here the same call is compared before and after other calls, and with a newly loaded module',
               'arguments come from the stated tables', 'standard normal variates of a seeded generator depend on the seed and their position only']
SC = 'mtoolkit.scientific.'


def snap(H, v):
    """A copy of a value."""
    if isinstance(v, dict):
        return dict((k, snap(H, x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [snap(H, x) for x in v]
    if hasattr(v, 'flatten') and H.shape(v) != ():
        return ('array', H.shape(v), list(H.flat(v)))
    return v


def agree(H, a, b):
    if isinstance(a, tuple) and len(a) == 3 and isinstance(a[0], str) and a[0] == 'array':
        return isinstance(b, tuple) and a[1] == b[1] and H.And(*[H.eqv(x, y) for x, y in zip(a[2], b[2])])
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and H.And(*[agree(H, a[k], b[k]) for k in a])
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and H.And(*[agree(H, x, y) for x, y in zip(a, b)])
    if isinstance(a, Exception) or isinstance(b, Exception):
        return type(a).__name__ == type(b).__name__
    if isinstance(a, (str, bool)) or a is None:
        return a is None and b is None or a is not None and b is not None and H.same(a, b)
    return H.close(a, b, 1e-9)


def ask(H, f, args):
    """Calls f on args: (result as returned, its copy), checking the arguments."""
    before = snap(H, list(args))
    r, x = H.call(f, *args)
    H.check(agree(H, snap(H, list(args)), before), 'the arguments are left unchanged')
    v = x if x is not None else r
    return v, snap(H, v)


def repeat(H, module, get, A, B, make=None):
    """get(module) is called on A, B and A again."""
    f = get(H.mod(module))
    r1, s1 = ask(H, f, A)
    r2, s2 = ask(H, f, B)
    H.check(agree(H, snap(H, r1), s1), 'a result is not changed by a later call')
    r3, s3 = ask(H, f, A)
    H.check(agree(H, s1, s3), 'the same call gives the same result again')
    H.check(agree(H, snap(H, r2), s2), 'a result is not changed by a later call')
    g = get(H.fresh(module))
    _, s4 = ask(H, g, B)
    H.check(agree(H, s2, s4), 'earlier calls have no influence')
    H.cover('raised' if isinstance(s2, Exception) else 'end')


def two(H, base, *varied):
    """Two lists: base with some places open, for the first and for the second call."""
    A, B = [H.num(x) for x in base], [H.num(x) for x in base]
    for i, tab in varied:
        A[i] = H.pick('a%d' % i, tab)
        B[i] = H.pick('b%d' % i, tab)
    return A, B


def catalogues(H, cols=None):
    """Two catalogues of the same length, differing in two inner places or in length."""
    p = H.p
    mA, mB = two(H, p['mags'], *p['vm'])
    n = len(mA)
    y = [H.num(float(v)) for v in p['years']]
    yA, yB = list(y), list(y)
    if p.get('vy'):
        i, tab = p['vy']
        yB[i] = H.pick('year', tab)
    cut = H.choice('length', p.get('lengths', [n]))
    return (yA, mA), (yB[:cut], mB[:cut])


def arrs(H, xs):
    return [H.arr(list(x), 'f') for x in xs]


def declustering(H):
    n = 4
    mA, mB = two(H, [5.0, 6.0, 4.5, 5.5], (1, [5.0, 6.5]), (2, [4.5, 6.0]))
    pl = [(10.0, 45.0), (10.2, 45.0), (10.1, 45.1), (14.0, 46.0)]
    dates = [(1990, 6, 10), (1990, 6, 1), (1990, 6, 20), (1990, 7, 1)]
    mats = []
    for k, m in (('a', mA), ('b', mB)):
        d = list(dates)
        if k == 'b':
            d[2] = H.choice('date', [(1990, 6, 20), (1995, 1, 1)])
        mats.append(H.arr([[H.num(float(v)) for v in d[i]] + [H.num(pl[i][0]), H.num(pl[i][1]), m[i], H.num(0.1)] for i in range(n)], 'f'))
    w = H.choice('windows', ['GardnerKnopoff', 'Uhrhammer', 'Gruenthal'])
    w2 = H.choice('second windows', ['GardnerKnopoff', 'Uhrhammer'])
    par = H.p['par']
    repeat(H, SC + 'declustering', lambda m: getattr(m, H.p['f']), (mats[0], w, par[0]), (mats[1], w2, H.choice('parameter', par)))


def windows(H):
    A, B = two(H, [5.0, 6.0, 7.0], (1, [2.0, 6.0]), (2, [4.0, 6.5]))
    cls = H.p['cls']
    repeat(H, SC + 'declustering', lambda m: lambda a: getattr(m, cls)().calc(a), (H.arr(A, 'f'),), (H.arr(B, 'f'),))


def stepp(H):
    (yA, mA), (yB, mB) = catalogues(H)
    a, b = arrs(H, (yA, mA)), arrs(H, (yB, mB))
    par = H.choice('parameters', [(0.5, 5, 0.2, True), (0.5, 5, 0.2, False), (1.0, 2, 0.2, True)])
    repeat(H, SC + 'completeness', lambda m: m.stepp_analysis, a + [0.5, 5, 0.2, True], b + list(par))


def selected(H):
    y = [H.arr(H.ints(k + 'y', 3, 1900, 2000), 'f') for k in 'ab']
    m = [H.arr(H.reals(k + 'm', 3, 3, 8), 'f') for k in 'ab']
    cy, cm = H.arr([H.num(1990.0), H.num(1950.0), H.num(1920.0)], 'f'), H.arr([H.num(4.0), H.num(5.0), H.num(6.0)], 'f')
    fl = [H.arr([H.pick('%sflag%d' % (k, i), [-1.0, 0.0, 2.0]) for i in range(3)], 'f') for k in 'ab']
    repeat(H, SC + 'completeness', lambda m: m.selected_eq_flag_vector, (y[0], m[0], cy, cm, fl[0]), (y[1], m[1], cy, cm, fl[1]))


def recurrence(H):
    (yA, mA), (yB, mB) = catalogues(H)
    a, b = arrs(H, (yA, mA)), arrs(H, (yB, mB))
    tA = H.arr([[H.num(1965.0), H.num(4.0)], [H.num(1950.0), H.num(5.0)]], 'f')
    tB = H.choice('table', [[(1965.0, 4.0), (1950.0, 5.0)], [(1950.0, 4.0), (1940.0, 5.0)]])
    tB = H.arr([[H.num(x) for x in r] for r in tB], 'f')
    alg, alg2 = H.choice('algorithm', H.p['algs']), H.choice('second algorithm', H.p['algs2'])
    ref = H.choice('reference', [4.5, 5.0])
    repeat(H, SC + 'recurrence', lambda m: m.recurrence_analysis, a + [tA, 0.5, alg, 4.5, 5.0], b + [tB, 0.5, alg2, ref, 5.0])


def parts(H):
    """The functions the analysis is made of."""
    (yA, mA), (yB, mB) = catalogues(H)
    (ya, ma), (yb, mb) = arrs(H, (yA, mA)), arrs(H, (yB, mB))
    cy, cm = H.arr([H.num(1965.0), H.num(1950.0)], 'f'), H.arr([H.num(4.0), H.num(5.0)], 'f')
    k = H.p['part']
    if k == 'table':
        A, B = (ma, 0.5, ya), (mb, 0.5, yb)
        f = lambda m: m.recurrence_table
    elif k == 'prep':
        A, B = (ya, ma, cy, cm, 0.5, 5.0), (yb, mb, cy, cm, 0.5, 5.0)
        f = lambda m: m.weichert_prep
    elif k == 'mle':
        A, B = (ya, ma, cy, cm, 0.5, 4.5), (yb, mb, cy, cm, 0.5, 4.5)
        f = lambda m: m.b_maxlike_time
    elif k == 'aki':
        nA, nB = H.arr([H.num(9.0), H.num(4.0), H.pick('na', [1.0, 3.0])], 'f'), H.arr([H.num(9.0), H.pick('nb', [4.0, 7.0]), H.num(1.0)], 'f')
        mv = H.arr([H.num(4.25), H.num(4.75), H.num(5.25)], 'f')
        A, B = (mv, nA, 0.5, 4.0), (mv, nB, 0.5, H.choice('mc', [4.0, 4.5]))
        f = lambda m: m.b_max_likelihood
    else:
        per = H.arr([H.num(20.0), H.num(20.0), H.num(40.0)], 'f')
        mv = H.arr([H.num(4.25), H.num(4.75), H.num(5.25)], 'f')
        nA = H.arr([H.num(9.0), H.num(4.0), H.pick('na', [1.0, 3.0])], 'f')
        nB = H.arr([H.num(9.0), H.pick('nb', [4.0, 7.0]), H.num(1.0)], 'f')
        A, B = (per, mv, nA, 4.5), (per, mv, nB, H.choice('ref', [4.5, 5.0]))
        f = lambda m: m.weichert
    repeat(H, SC + 'recurrence', f, A, B)


def maximum(H):
    (yA, mA), (yB, mB) = catalogues(H)
    (ya, ma), (yb, mb) = arrs(H, (yA, mA)), arrs(H, (yB, mB))
    k = H.p['part']
    sg = lambda n, s: H.arr([H.num(s)] * n, 'f')
    if k == 'moment':
        A, B, f = (ya, ma), (yb, mb), lambda m: m.cumulative_moment
    elif k == 'seeded':
        s = H.choice('seed', [7, 8])
        A, B, f = (ya, ma, sg(len(mA), 0.25), 2, 7), (yb, mb, sg(len(mB), 0.25), 2, s), lambda m: m.cum_mo_uncertainty
    elif k == 'kijko':
        A, B = (ma, sg(len(mA), 0.1), 3, 5.0, 0.01, 3, False), (mb, sg(len(mB), 0.2), H.choice('neq', [3, 2]), 5.0, 0.01, 3, False)
        f = lambda m: m.kijko_nonparametric_gauss
    elif k == 'bandwidth':
        A, B, f = (ma,), (mb,), lambda m: m.h_smooth
    elif k == 'normal':
        A, B = (ma, 5.0, 0.5), (mb, H.choice('mean', [5.0, 4.5]), H.choice('deviation', [0.5, 0.75]))
        f = lambda m: m.gauss_cdf_hastings
    elif k == 'integral':
        g = H.arr([H.num(4.0), H.num(4.5), H.num(5.0), H.num(5.25), H.num(5.5)], 'f')
        A, B = (g, ma, 0.5, 3.0), (g, mb, H.choice('h', [0.5, 0.75]), 3.0)
        f = lambda m: m.kijko_npg_intfunc_simps
    elif k == 'points':
        A, B, f = (mA[1], H.num(6.5), 5.0), (mB[1], H.num(6.5), H.choice('n', [5.0, 4.0])), lambda m: m.exp_spaced_points
    else:
        al = H.choice('algorithm', ['Cumulative_Moment', 'Kijko_Npg'])
        A = (ya, ma, sg(len(mA), 0.0), 'Kijko_Npg', 0.01, 3, 3, 5.0, 2)
        B = (yb, mb, sg(len(mB), 0.0), al, 0.01, 3, 3, 5.0, 2)
        f = lambda m: m.maximum_magnitude_analysis
    repeat(H, SC + 'maximum_magnitude', f, A, B)


def utilities(H):
    k = H.p['part']
    if k == 'year':
        v = [[H.arr(d, 'f') for d in dates(H, s)] for s in 'ab']
        repeat(H, SC + 'catalogue_utilities', lambda m: m.decimal_year, v[0], v[1])
    elif k == 'julian':
        v = [[H.pick(s + f, t) for f, t in (('y', [1899.0, 2000.0]), ('m', [1.0, 3.0]), ('d', [1.0, 28.0]))] + [H.num(12.0), H.num(30.0), H.num(1.5)] for s in 'ab']
        repeat(H, SC + 'catalogue_utilities', lambda m: m.greg2julian, v[0], v[1])
    else:
        P = [(10.0, 45.0), (-179.5, -10.0), (0.0, 89.0)]
        v = []
        for s in 'ab':
            pts = [H.picks('%sp%d' % (s, i), P) for i in range(2)]
            one = H.picks(s + 'q', P[:2])
            v.append((H.arr([q[0] for q in pts], 'f'), H.arr([q[1] for q in pts], 'f'), one[0], one[1], H.choice(s + 'radians', [False, True])))
        repeat(H, SC + 'catalogue_utilities', lambda m: m.haversine, v[0], v[1])


def dates(H, s):
    ps = [H.picks('%sdate%d' % (s, i), [(1900, 2, 28), (2000, 3, 1), (1996, 12, 31)]) for i in range(2)]
    return [[p[j] for p in ps] for j in range(3)]


RINGS = [[(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (0.0, 4.0)], [(2.0, 2.0), (6.0, 2.0), (4.0, 7.0), (2.0, 2.0)]]


def filtering(H):
    """One filter for several sources and catalogues."""
    sm = H.mod('mtoolkit.source_model')
    src = []
    for i, r in enumerate(RINGS):
        s = sm.default_area_source()
        s.area_boundary = sm.AREA_BOUNDARY('urn', [sm.POINT(*q) for q in r])
        src.append(s)
    cat = lambda k: H.arr([[H.num(1990.0), H.num(1.0), H.num(2.0), H.real('%slon%d' % (k, i), -10, 10), H.num(3.0 - i), H.num(5.0), H.num(0.1)] for i in range(2)], 'f')
    ca, cb = cat('a'), cat('b')
    which = H.choice('second source', [0, 1])
    state = {}

    def get(m):
        flt = m.CatalogFilter(m.SourceModelCatalogFilter())

        def f(i, c):
            out = list(flt.filter_eqs([src[i]], c))
            return [e for s, e in out]
        return f
    bounds = [snap(H, [tuple(p) for p in s.area_boundary.pos_list]) for s in src]
    repeat(H, 'mtoolkit.catalog_filter', get, (0, ca), (which, cb))
    H.check(H.And(*[agree(H, snap(H, [tuple(p) for p in s.area_boundary.pos_list]), b) for s, b in zip(src, bounds)]), 'the sources are left unchanged')


def fault(H):
    g = H.mod('mtoolkit.geo.simple_fault').SimpleFaultGeo
    t = H.mod('mtoolkit.geo.tectonic_region').TectonicRegionBuilder
    tr = [t.create_tect_region_by_name(t.VOLCANIC), t.create_tect_region_by_name(t.SUBDUCTION_INTERFACE)]
    A = [g([(0, 0), (0.5, 0.25)], 1.0, 11.0, 45.0), g([(0, 0), (0.5, 1.25)], H.choice('upper', [1.0, 2.0]), 11.0, H.choice('dip', [45.0, 60.0]))]
    H.median_value = H.num(6.5)

    def get(m):
        return lambda slip, i, reg, b, lo: [m.get_mfd(slip, 0.1, tr[reg], A[i], b, lo, 0.25, max_mag=6.0), A[i].get_length(), A[i].get_width(), A[i].get_area()]
    repeat(H, SC + 'fault_calculator', get, (H.real('slip', 0.01, 50), 0, 0, 1.0, 5.0),
           (H.real('slip2', 0.01, 50), H.choice('fault', [0, 1]), H.choice('region', [0, 1]), H.choice('b', [1.0, 0.75]), H.choice('lo', [5.0, 4.75])))


def geometry(H):
    pts = [(0, 0), (0.5, 0.25), (10, 40), (-179.5, -33.5)]
    tr = [[H.picks('%spoint%d' % (s, i), pts) for i in range(3)] for s in 'ab']
    dip = [H.pick(s + 'dip', [30.0, 90.0]) for s in 'ab']

    def get(m):
        def f(trace, up, low, dip):
            o = m.SimpleFaultGeo(trace, up, low, dip)
            return [o.get_length(), o.get_width(), o.get_area()]
        return f
    repeat(H, 'mtoolkit.geo.simple_fault', get, (tr[0], 1.0, 11.0, dip[0]), (tr[1], H.choice('upper', [1.0, 0.0]), 11.0, dip[1]))


def region(H):
    def arg(s):
        w = H.pick(s + 'w', [0.25, 0.5])
        return ({'model': ['WC1994', 'Peer'], 'weight': [w, 1 - w]}, {'value': H.reals(s + 'mu', 2, 1, 99), 'weight': [0.5, 0.5]},
                {'value': H.reals(s + 'dlr', 1, 0.001, 1), 'weight': [H.choice(s + 'weight', [1.0, 0.5])]})

    builder = H.mod('mtoolkit.geo.tectonic_region').TectonicRegionBuilder
    name = getattr(builder, H.choice('region', ['ACTIVE_SHALLOW_CRUST', 'SUBDUCTION_INTRASLAB', 'STABLE_CONTINENTAL', 'VOLCANIC']))
    over = H.choice('given', [('smod',), ('dlr',), ('msr', 'dlr')])

    def get(m):
        def f(a, b, c):
            r = m.TectonicRegionBuilder.create_new_tect_region('009', a, b, c)
            T = m.TectonicRegionBuilder
            all5 = [getattr(T, k) for k in ('ACTIVE_SHALLOW_CRUST', 'SUBDUCTION_INTERFACE', 'SUBDUCTION_INTRASLAB', 'STABLE_CONTINENTAL', 'VOLCANIC')]
            d = T.create_tect_region_by_name(name)
            first = [d.shear_mod_first_value, d.disp_length_ratio_first_value]
            e = T.create_tect_region_by_name(name, **dict((k, v) for k, v in (('msr', a), ('smod', b), ('dlr', c)) if k in over))
            g = [T.create_tect_region_by_name(k) for k in all5]
            return [[x.shear_mod_first_value, x.disp_length_ratio_first_value] for x in [r, d, e] + g] + [first, r == d, d in g] + [
                k == T.create_tect_region_by_name(w) for k, w in zip(g, all5)]
        return f
    repeat(H, 'mtoolkit.geo.tectonic_region', get, arg('a'), arg('b'))


def catalogue_files(H):
    """Readers and writers of catalogues one after the other."""
    kind = H.choice('second file', ['valid', 'longer', 'bad value', 'bad header', 'blank fields'])
    rows = [valid_row(H, 'a%d' % i, ['Mw', 'year', 'mb'] if i else ['longitude']) for i in range(2)]
    other = [valid_row(H, 'b%d' % i, ['Mw', 'year', 'mb'] if i else ['latitude']) for i in range(3 if kind == 'longer' else 2)]
    head = header()
    if kind == 'bad value':
        other[1]['month'] = H.int('month', 13, 40)
    elif kind == 'bad header':
        head = head.replace('Mw', 'MW', 1)
    elif kind == 'blank fields':
        for f in ('ErrorStrike', 'mb', 'sigmaMw', 'second'):
            other[1][f] = ''

    def get(m):
        def f(text):
            p = H.write('in.csv', text)
            with open(p) as g:
                e = m.EqEntryReader(g).read_eq_catalog()
            keep = [dict(r) for r in e]
            q = os.path.join(H.tmp(), 'out.csv')
            m.EqEntryWriter(q).write_rows(e)
            H.check(len(e) == len(keep) and H.And(*[agree(H, dict(a), b) for a, b in zip(e, keep)]), 'writing leaves the entries unchanged')
            with open(q) as g:
                back = m.EqEntryReader(g).read_eq_catalog()
            return [[r[k] for k in FIELDS] for r in e] + [[r[k] for k in FIELDS] for r in back]
        return f
    repeat(H, 'mtoolkit.eqcatalog', get, (catalogue_text(rows),), (catalogue_text(other, head),))


def model_files(H):
    """Readers and writers of source models one after the other."""
    kind = H.choice('second file', ['valid', 'optional', 'longer', 'invalid'])
    va = [source_values(H, 'a%d' % i, 2, 1, 1) for i in range(1)]
    t = dict(name=None, srs=None, type_tgr=None, type_mag=None) if kind == 'optional' else {}
    vb = [source_values(H, 'b%d' % i, 3, 2, 2, **t) for i in range(2 if kind == 'longer' else 1)]
    texts = [model_xml([source_xml(v) for v in va]), model_xml([source_xml(v, drop=('dip',) if kind == 'invalid' else ()) for v in vb], 'n2', 'sm2')]
    schema = schema_path(H)

    def get(m):
        w = H.mod('nrml.writer') if m is H.mod('nrml.reader') else H.fresh('nrml.writer')

        def f(text):
            p = H.write('in.xml', text)
            r = m.NRMLReader(p, schema)
            s = list(r.read())
            d = [source_dict(x) for x in s]
            q = os.path.join(H.tmp(), 'out.xml')
            w.AreaSourceWriter(q).serialize(s)
            H.check(agree(H, snap(H, [source_dict(x) for x in s]), snap(H, d)), 'writing leaves the sources unchanged')
            return d + [source_dict(x) for x in m.NRMLReader(q, schema).read()] + [source_dict(x) for x in r.read()]
        return f
    repeat(H, 'nrml.reader', get, (texts[0],), (texts[1],))


def scenarios(tier):
    t = tier != 'quick'
    E = {'eager': True}
    MA = [4.5, 4.0, 5.0, 5.5, 4.0, 4.5, 6.0]
    YE = [1966, 1971, 1970, 1990, 1983, 1975, 1951]
    cat = dict(E, mags=MA, years=YE, vm=[(1, [4.0, 4.5]), (3, [5.5, 4.75])], vy=(4, [1983.0, 1968.0]), lengths=[7, 6])
    sm = dict(E, mags=[4.5, 5.25, 5.0, 6.0], years=[1990, 1991, 1993, 1997], vm=[(1, [5.25, 4.75]), (2, [5.0, 5.5])], vy=(1, [1991.0, 1996.0]), lengths=[4, 3])
    P = [('gardner-knopoff', declustering, dict(E, f='gardner_knopoff_decluster', par=[0.5, 0.25]), '4 events'),
         ('afteran', declustering, dict(E, f='afteran_decluster', par=[60.0, 20.0]), '4 events')]
    P += [('window-' + c.lower(), windows, {'cls': c + 'Window'}, '3 magnitudes') for c in ('GardnerKnopoff', 'Gruenthal', 'Uhrhammer')]
    P += [('stepp', stepp, cat, '7 events'), ('selected', selected, {}, '3 events, any year, magnitude and flag'),
          ('recurrence', recurrence, dict(cat, algs=['MLE', 'Weichert'], algs2=['MLE', 'Weichert']), '7 events, both algorithms in both orders')]
    P += [('recurrence-' + k, parts, dict(cat, part=k), '7 events or 3 magnitude intervals') for k in ('table', 'prep', 'mle', 'aki', 'weichert')]
    P += [('maximum-' + k, maximum, dict(sm, part=k, draw_table=[-1.0, 1.5]), '4 events') for k in (
        'moment', 'seeded', 'kijko', 'bandwidth', 'normal', 'integral', 'points', 'analysis')]
    P += [('date-' + k if k != 'distance' else k, utilities, {'part': k}, 'tables of dates and points') for k in ('year', 'julian', 'distance')]
    P += [('filter', filtering, E, '2 events at any longitude, 2 sources'), ('fault', fault, {'float': True}, 'any slip, 2 faults and regions'),
          ('geometry', geometry, E, '3 points of 4'), ('region', region, E, 'any values, 2 weights'),
          ('catalogue', catalogue_files, E, 'catalogues of 2 and 3 rows, valid and not'),
          ('model', model_files, {'unit_tokens': True}, 'models of 1 and 2 sources, valid and not')]
    return [scen(n, b, p=p, covers=['end'], bounds='%s; two argument lists that vary in a few places each, called one after the other' % d) for n, b, p, d in P]
