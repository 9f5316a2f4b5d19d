"""W02: each source is processed once with its own events, and only it."""
from vp.harness import scen

ASSUMPTIONS = ['the filter and the jobs are stand-ins in the first scenarios; the polygon scenario uses the real filter']


def source(H, i, pts=None):
    m = H.mod('mtoolkit.source_model')
    s = m.default_area_source()
    s.name = s.area_source_id = 'zone %d' % i
    if pts:
        s.area_boundary = m.AREA_BOUNDARY('urn:ogc:def:crs:EPSG::4326', [m.POINT(*p) for p in pts])
    return s


def drive(H, ctx, flt, pre, proc):
    w = H.mod('mtoolkit.workflow')
    return H.call(w.Workflow(w.PipeLine(pre), w.PipeLine(proc)).start, ctx, flt)


def stubs(H):
    """Each source has 0 to 2 events by a stand-in filter."""
    w, f = H.mod('mtoolkit.workflow'), H.mod('mtoolkit.catalog_filter')
    n = H.p['n']
    sms = [source(H, i) for i in range(n)]
    cat = H.arr([H.reals('row%d_' % i, 7, -10000, 10000) for i in range(2)])
    have = [H.int('events%d' % i, 0, 2) if i < 4 else H.num((i * i) % 5 % 3) for i in range(n)]
    log = []

    class Flt(object):
        def filter_eqs(self, sm, eqs):
            i = [k for k in range(n) if sms[k] is sm][0]
            log.append(('filter', i, eqs))
            k = H.concrete_int(have[i])
            return eqs[:k] if k else H.np.array([])
    enabled = H.choice('apply', [True, False, None])
    ctx = w.Context()
    ctx.config = {'apply_processing_jobs': enabled, 'source_model_file': 'x'}
    stale = H.arr([[H.num(1.0)] * 7])
    ctx.working_catalog = stale

    def p1(c):
        log.append(('pre', 0, None))
        c.sm_definitions = sms

    def p2(c):
        log.append(('pre', 1, None))
        c.working_catalog = cat

    def job(k):
        def g(c):
            log.append(('job', k, (c.cur_sm, c.current_filtered_eq)))
        return g
    jobs = [job(0), job(1)][:H.p['jobs']]
    before = [vars(s).copy() for s in sms]
    _, x = drive(H, ctx, f.CatalogFilter(Flt()), [p1, p2], jobs)
    H.check(x is None, 'runs')
    if x is not None:
        return
    H.check([l[:2] for l in log[:2]] == [('pre', 0), ('pre', 1)] and not any(l[0] == 'pre' for l in log[2:]),
            'preprocessing comes first, once')
    runs = [l for l in log if l[0] == 'job']
    if not enabled:
        H.check(not runs, 'processing disabled: no job runs')
        H.cover('disabled')
        return
    ks = [H.concrete_int(h) for h in have]
    want = [(j, i) for i in range(n) if ks[i] for j in range(len(jobs))]
    H.check(len(runs) == len(want), 'each source with events is processed once')
    if len(runs) != len(want):
        return
    for (_, j, (sm, eqs)), (wj, wi) in zip(runs, want):
        H.check(j == wj and sm is sms[wi], 'sources and jobs in order')
        H.check(H.shape(eqs) == (ks[wi], 7), 'the number of events of the source')
        if H.shape(eqs) == (ks[wi], 7):
            H.eq(eqs, cat[:ks[wi]], 'the events of the source', tol=0)
    for l in log:
        if l[0] == 'filter':
            H.check(l[2] is cat or H.shape(l[2]) == (2, 7) and bool(H.And(*[H.eqv(a, b) for a, b in zip(H.flat(l[2]), H.flat(cat))])),
                    'selected from the working catalogue as preprocessing left it')
    for s, b in zip(sms, before):
        H.check(all(vars(s).get(k) is v for k, v in b.items()), 'the workflow itself changes no source')
    H.check(len(ctx.sm_definitions) == n and all(a is b for a, b in zip(ctx.sm_definitions, sms)), 'the model keeps its sources')
    H.cover('enabled')


SQUARES = [[(0, 0), (4, 0), (4, 4), (0, 4), (0, 0)], [(2, 2), (6, 2), (6, 6), (2, 6), (2, 2)], [(10, 0), (12, 0), (11, 3), (10, 0)]]


def polygons(H):
    """Real filter: events anywhere, sources overlapping."""
    w, f = H.mod('mtoolkit.workflow'), H.mod('mtoolkit.catalog_filter')
    n, m = H.p['n'], H.p['m']
    sms = [source(H, i, SQUARES[i]) for i in range(n)]
    rows = []
    for i in range(m):
        r = H.reals('row%d_' % i, 7, 0, 3000)
        r[3], r[4] = H.real('lon%d' % i, -180, 180), H.real('lat%d' % i, -90, 90)
        rows.append(r)
    cat = H.arr(rows)
    ctx = w.Context()
    ctx.config = {'apply_processing_jobs': True, 'source_model_file': 'x'}
    seen = []

    def pre(c):
        c.sm_definitions, c.working_catalog, c.catalog_matrix = sms, cat, H.arr([[H.num(9.0)] * 7])

    def job(c):
        seen.append((c.cur_sm, c.current_filtered_eq))
        c.cur_sm.hypocentral_depth = 'set'
    _, x = drive(H, ctx, f.CatalogFilter(f.SourceModelCatalogFilter()), [pre], [job])
    H.check(x is None, 'runs')
    if x is not None:
        return
    inside = [[contains(H, SQUARES[i], r[3], r[4]) for r in rows] for i in range(n)]
    k = 0
    for i in range(n):
        ins = [j for j in range(m) if H.decide(inside[i][j])]
        if not ins:
            H.check(sms[i].hypocentral_depth == 5000.0, 'a source without events keeps its values')
            H.cover('skipped')
            continue
        H.check(k < len(seen) and seen[k][0] is sms[i], 'every source with events is processed, in order')
        if k < len(seen):
            H.eq(seen[k][1], H.arr([rows[j] for j in ins]), 'with the events inside it', tol=0)
            H.check(isinstance(sms[i].hypocentral_depth, str), 'and gets its own results')
        k += 1
        H.cover('processed')
    H.check(len(seen) == k, 'no source is processed twice')


def contains(H, ring, x, y):
    """Strictly inside a convex counterclockwise ring."""
    cs = []
    for (x1, y1), (x2, y2) in zip(ring, ring[1:]):
        cs.append((x2 - x1) * (y - y1) - (y2 - y1) * (x - x1) > 0)
    return H.And(*cs)


def whole(H):
    """Without source filtering every source gets the whole catalogue."""
    w, f = H.mod('mtoolkit.workflow'), H.mod('mtoolkit.catalog_filter')
    n, m = H.p['n'], H.p['m']
    sms = [source(H, i) for i in range(n)]
    rows = [H.reals('row%d_' % i, 7, -10000, 10000) for i in range(m)]
    cat = H.arr(rows)
    ctx = w.Context()
    ctx.config = {'apply_processing_jobs': True, 'source_model_file': None}
    seen = []

    def pre(c):
        c.sm_definitions, c.working_catalog = sms, cat
    _, x = drive(H, ctx, f.CatalogFilter(), [pre], [lambda c: seen.append((c.cur_sm, c.current_filtered_eq))])
    H.check(x is None, 'runs')
    if x is not None:
        return
    H.check(len(seen) == n and all(s is t for (s, e), t in zip(seen, sms)), 'every source, once, in order')
    for s, e in seen:
        H.eq(e, H.arr(rows), 'with the whole catalogue', tol=0)
    H.cover('end')


def scenarios(tier):
    t = tier != 'quick'
    out = [scen('sources-%d-jobs-%d' % (n, j), stubs, p={'n': n, 'jobs': j}, covers=['disabled', 'enabled'],
                bounds='%d sources with 0 to 2 events each, %d jobs, processing on, off and blank' % (n, j))
           for n, j in ([(0, 1), (1, 2), (3, 2)] if not t else [(0, 1), (1, 2), (2, 0), (3, 2), (5, 1)])]
    out += [scen('sources-many', stubs, p={'n': 80 if t else 30, 'jobs': 2}, covers=['disabled', 'enabled'], bounds='%d sources, four of them with 0 to 2 events each, the others with fixed numbers' % (80 if t else 30))]
    out += [scen('polygons-%d-%d' % (n, m), polygons, p={'n': n, 'm': m}, covers=['skipped', 'processed'],
                 bounds='%d overlapping sources, %d events anywhere' % (n, m)) for n, m in ([(2, 2)] if not t else [(2, 2), (3, 2), (2, 3)])]
    out += [scen('whole-%d-%d' % (n, m), whole, p={'n': n, 'm': m}, covers=['end'], bounds='%d sources, %d events, no source filter' % (n, m))
            for n, m in ((1, 1), (2, 3), (3, 200))]
    return out
