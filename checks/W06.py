"""W06: a run of the program updates and writes every source from its own events."""
import os
import yaml
from lxml import etree
from vp.harness import scen
from vp.domain import *

ASSUMPTIONS = ['the computations are those decided by the other checks: here they are the real ones on both sides, and only what is passed through the run is decided',
               'each zone has no events or enough for the configured computations', 'polygons have the stated vertices']
RINGS = [[(10.0, 40.0), (14.0, 40.0), (14.0, 44.0), (10.0, 44.0)], [(12.0, 42.0), (16.0, 42.0), (16.0, 46.0), (12.0, 46.0), (12.0, 42.0)],
         [(-20.0, -5.0), (-10.0, -5.0), (-15.0, 5.0)]]
# year, month, day, Mw, place
EVENTS = [(1966, 3, 2, 4.5, 0), (1971, 7, 30, 4.0, 1), (1970, 1, 1, 5.0, 0), (1990, 12, 31, 5.5, 1), (1983, 6, 6, 4.0, 0), (1975, 2, 28, 4.75, 1),
          (1969, 5, 5, 6.0, 0), (1995, 9, 9, 5.25, 1)]
REC = {'magnitude_window': 0.5, 'recurrence_algorithm': 'MLE', 'reference_magnitude': 4.5, 'time_window': 5.0}
MAX = {'maxim_mag_algorithm': 'Cumulative_Moment', 'iteration_tolerance': 0.01, 'maximum_iterations': 100, 'neq': 100, 'number_samples': 51,
       'number_bootstraps': 2}
PRE = {'GardnerKnopoff': {'time_dist_windows': 'GardnerKnopoff', 'foreshock_time_window': 0.5}, 'Afteran': {'time_dist_windows': 'Uhrhammer', 'time_window': 60.0},
       'Stepp': {'time_window': 5, 'magnitude_windows': 0.5, 'sensitivity': 0.1, 'increment_lock': True}}


def config(H, **k):
    c = dict.fromkeys(['eq_catalog_file', 'source_model_file', 'pprocessing_result_file', 'completeness_table_file', 'result_file',
                       'apply_processing_jobs', 'preprocessing_jobs', 'processing_jobs'])
    c.update(PRE, Recurrence=dict(REC), MaximumMagnitude=dict(MAX))
    c.update(k)
    return c


def run(H, c, name='config.yml'):
    """Runs the program with a configuration; the paths are relative or absolute."""
    H.write(name, yaml.safe_dump(c))
    return H.main('-i', name)


def rows_of(H, places):
    rows = []
    for i, (y, mo, d, m, w) in enumerate(EVENTS[:H.p['n']]):
        r = valid_row(H, str(i), [], eventID=100 + i, year=y, month=mo, day=d, Mw=m, sigmaMw=0.0, longitude=places[w][0], latitude=places[w][1])
        rows.append(r)
    return rows


def vary(H, rows):
    """Some numbers of the catalogue are open."""
    if H.p.get('vary'):
        rows[1]['Mw'] = H.pick('mag', [4.0, 4.5, 5.25])
        rows[2]['year'] = H.pick('year', [1968, 1985], 'i')
    return rows


def matrix(H, rows):
    return [[H.num(float(r[f])) if not H.symbolic or isinstance(r[f], (int, float)) else r[f] for f in
             ('year', 'month', 'day', 'longitude', 'latitude', 'Mw', 'sigmaMw')] for r in rows]


def inside(H, ring, x, y):
    ring = ring if ring[0] == ring[-1] else ring + ring[:1]
    return H.And(*[(bx - ax) * (y - ay) - (by - ay) * (x - ax) > 0 for (ax, ay), (bx, by) in zip(ring, ring[1:])])


def expected(H, v, rows, table, jobs):
    """The values of a source after the processing jobs on its events."""
    v = dict(v)
    if not rows:
        return v
    m = H.arr(matrix(H, rows), 'f')
    for j in jobs:
        if j == 'Recurrence':
            f = H.mod('mtoolkit.scientific.recurrence').recurrence_analysis
            r, x = H.call(f, m[:, 0], m[:, 5], table, REC['magnitude_window'], REC['recurrence_algorithm'], REC['reference_magnitude'], REC['time_window'])
            if x is None:
                v['b'], v['a'], v['min'] = r[0], r[2], REC['reference_magnitude']
        else:
            f = H.mod('mtoolkit.scientific.maximum_magnitude').maximum_magnitude_analysis
            r, x = H.call(f, m[:, 0], m[:, 5], m[:, 6], MAX['maxim_mag_algorithm'], MAX['iteration_tolerance'], MAX['maximum_iterations'], MAX['neq'],
                          MAX['number_samples'], MAX['number_bootstraps'])
            if x is None:
                v['max'] = r[0]
        if x is not None:
            return None
    return v


def result(H, p, want):
    doc, x = H.call(etree.parse, p)
    H.check(x is None, 'the result file is written')
    if x is not None:
        return
    got = parse_model(H, doc)
    H.check(len(got) == len(want), 'the result has every source of the model')
    if len(got) == len(want):
        for g, v in zip(got, want):
            for k in sorted(v):
                c = H.close(g[k], v[k]) if k in ('a', 'b', 'min', 'max') else H.same(g[k], v[k])
                H.check(c, 'result: ' + k)


def zones(H):
    """A catalogue, a model of overlapping zones, processing jobs."""
    n = H.p['zones']
    a, b = H.p['places']
    places = [tuple(c if c is not None else H.real('%s%d' % (l, i), lo, hi) for c, l, lo, hi in zip(q, ('lon', 'lat'), (-180, -90), (180, 90)))
              for i, q in enumerate((a, b))]
    rows = vary(H, rows_of(H, places))
    vs = [source_values(H, 'z%d' % i, 3, 1, 1, name='zone %d' % i, type_tgr='Mw') for i in range(n)]
    for v, ring in zip(vs, RINGS):
        v['vertices'] = ring
    jobs = H.choice('jobs', H.p['jobs'])
    apply = H.choice('apply', H.p.get('apply', [True]))
    model = H.choice('model', H.p.get('model', [True]))
    table = H.choice('table', H.p.get('tables', [None]))
    H.write('cat.csv', catalogue_text(rows))
    H.write('other.csv', catalogue_text([valid_row(H, 'o', [])]))
    H.write('model.xml', model_xml([source_xml(v) for v in vs]))
    c = config(H, eq_catalog_file='cat.csv', source_model_file='model.xml' if model else None, result_file='out.xml', apply_processing_jobs=apply,
               processing_jobs=list(jobs) or None)
    if table:
        H.write('table.csv', ''.join('%s,%s\n' % t for t in table))
        c['completeness_table_file'] = os.path.join(H.tmp(), 'table.csv')
    args = H.choice('arguments', H.p.get('args', ['-i %s']))
    H.write('config.yml', yaml.safe_dump(c))
    x = H.main(*[a.replace('%s', 'config.yml') for a in args.split()])
    H.check(x is None, 'the program runs')
    if x is not None:
        return
    if not args:
        H.check(not os.path.exists(os.path.join(H.tmp(), 'out.xml')), 'nothing is done without a configuration file')
        H.cover('no arguments')
        return
    if not model:
        s = H.mod('mtoolkit.source_model').default_area_source()
        vs = [source_dict(s)]
    if table:
        tab = H.arr([[H.num(p), H.num(q)] for p, q in table], 'f')
    else:
        tab = H.arr([[H.min([H.num(r['year']) for r in rows]), H.min([H.num(r['Mw']) for r in rows])]], 'f')
    want = []
    for v, ring in zip(vs, RINGS):
        if not apply:
            mine = []
        elif not model:
            mine = rows
        else:
            ins = [H.decide(inside(H, ring, *pl)) for pl in places]
            mine = [r for r, e in zip(rows, EVENTS) if ins[e[4]]]
        w = expected(H, v, mine, tab, jobs)
        H.check(w is not None, 'the computations accept the events of the zone')
        if w is None:
            return
        want.append(w)
        H.cover('updated' if mine and jobs else 'as it was')
    result(H, os.path.join(H.tmp(), 'out.xml'), want)
    with open(os.path.join(H.tmp(), 'cat.csv')) as f:
        H.check(f.read() == catalogue_text(rows), 'the catalogue file is left alone')


def same_rows(H, path, rows, label):
    got, x = read_catalogue(H, open(path).read(), 'again.csv')
    H.check(x is None and len(got) == len(rows), label + ': exactly the entries kept')
    if x is None and len(got) == len(rows):
        for g, r in zip(got, rows):
            H.check(H.And(*[H.eqv(g[f], r[f]) for f in ('eventID', 'year', 'month', 'day', 'Mw', 'longitude', 'latitude', 'depth', 'mb')]), label + ': the entries kept, in order')


def pre(H):
    """Preprocessing, stored; then a second run on what was stored."""
    rows = vary(H, rows_of(H, [(11.0, 41.0), (11.25, 41.0)]))
    if H.p.get('close'):
        rows[4]['year'], rows[4]['month'], rows[4]['day'] = 1970, 1, H.pick('day', [2, 28], 'i')
    v = source_values(H, 'z0', 3, 1, 1, name='zone', type_tgr='Mw')
    v['vertices'] = RINGS[0]
    H.write('cat.csv', catalogue_text(rows))
    H.write('model.xml', model_xml([source_xml(v)]))
    pj = H.choice('preprocessing', H.p['pre'])
    apply = H.choice('apply', [False, True])
    c = config(H, eq_catalog_file='cat.csv', source_model_file='model.xml', result_file='out.xml', apply_processing_jobs=apply,
               preprocessing_jobs=list(pj), processing_jobs=['Recurrence'], pprocessing_result_file='kept.csv', completeness_table_file='table.csv')
    ended = run(H, c)
    m = H.arr(matrix(H, rows), 'f')
    de = H.mod('mtoolkit.scientific.declustering')
    co = H.mod('mtoolkit.scientific.completeness')
    flags = H.np.zeros(len(rows))
    work = m
    tab = H.arr([[H.min([r[0] for r in H.rows(m)]), H.min([r[5] for r in H.rows(m)])]], 'f')
    for j in pj:
        if j == 'GardnerKnopoff':
            (_, work, flags), x = H.call(de.gardner_knopoff_decluster, work, 'GardnerKnopoff', 0.5)
        elif j == 'Afteran':
            (_, work, flags), x = H.call(de.afteran_decluster, work, 'Uhrhammer', 60.0)
        else:
            tab, x = H.call(co.stepp_analysis, work[:, 0], work[:, 5], 0.5, 5, 0.1, True)
        H.check(x is None, 'the computation exists')
    first = v
    if apply:
        first = expected(H, v, [r for r, s in zip(rows, H.flat(flags)) if H.decide(s == 0)], tab, ['Recurrence'])
        if first is None:
            H.check(ended is not None, 'a computation that fails is reported')
            return
    H.check(ended is None, 'the program runs')
    if ended is not None:
        return
    H.cover('one run' if apply else 'only preprocessed')
    sel = co.selected_eq_flag_vector(m[:, 0], m[:, 5], tab[:, 0], tab[:, 1], flags)
    keep = [r for r, s in zip(rows, H.flat(sel)) if H.decide(s == 0)]
    H.cover('some dropped' if len(keep) < len(rows) else 'all kept')
    p = lambda n: os.path.join(H.tmp(), n)
    same_rows(H, p('kept.csv'), keep, 'stored catalogue')
    got = [[H.number(t) for t in l.split(',')] for l in open(p('table.csv')).read().split('\n') if l.strip()]
    H.check(len(got) == H.shape(tab)[0] and all(len(r) == 2 for r in got), 'stored completeness table')
    H.check(H.And(*[H.abs(a - b) <= 5.1e-6 for a, b in zip([t for r in got for t in r], H.flat(tab))]), 'the completeness table computed is the one stored')
    result(H, p('out.xml'), [first])
    if not keep:
        return
    # second run
    stored = H.arr(got, 'f')
    c = config(H, eq_catalog_file='kept.csv', source_model_file='model.xml', result_file='final.xml', apply_processing_jobs=True,
               processing_jobs=['Recurrence'], completeness_table_file='table.csv', pprocessing_result_file='kept.csv')
    want = expected(H, v, keep, stored, ['Recurrence'])
    x = run(H, c, 'second.yml')
    if want is None:
        H.check(x is not None, 'a computation that fails is reported')
        return
    H.check(x is None, 'the second run works on what the first stored')
    if x is None:
        result(H, p('final.xml'), [want])
        same_rows(H, p('kept.csv'), keep, 'stored catalogue, after processing')
        result(H, p('out.xml'), [first])
        H.cover('second run')


def again(H):
    """A workflow is started again on the context of an earlier run, with other files."""
    w, cf = H.mod('mtoolkit.workflow'), H.mod('mtoolkit.catalog_filter')
    places = [(11.0, 41.0), (15.0, 45.0)]
    c = config(H, eq_catalog_file=os.path.join(H.tmp(), 'cat.csv'), source_model_file=os.path.join(H.tmp(), 'model.xml'), apply_processing_jobs=True,
               preprocessing_jobs=list(H.choice('preprocessing', [(), ('Stepp',), ('Afteran',)])), processing_jobs=['Recurrence'])
    H.write('config.yml', yaml.safe_dump(c))
    ctx = w.Context(os.path.join(H.tmp(), 'config.yml'))
    wf = w.Workflow(w.PreprocessingBuilder().build(ctx.config), w.ProcessingBuilder().build(ctx.config))
    flt = cf.CatalogFilter(cf.SourceModelCatalogFilter())
    de, co = H.mod('mtoolkit.scientific.declustering'), H.mod('mtoolkit.scientific.completeness')
    old = []
    for k in range(H.p['runs']):
        n, nz, app = H.choice('run%d' % k, [(8, 2, True), (6, 1, True), (8, 1, False)])
        rows = rows_of(H, places)[:n]
        rows[1]['Mw'] = H.pick('mag%d' % k, [4.0, 5.25])
        vs = [source_values(H, 'r%dz%d' % (k, i), 3, 1, 1, name='zone %d of %d' % (i, k), type_tgr='Mw') for i in range(nz)]
        for v, ring in zip(vs, RINGS):
            v['vertices'] = ring
        H.write('cat.csv', catalogue_text(rows))
        H.write('model.xml', model_xml([source_xml(v) for v in vs]))
        ctx.config['apply_processing_jobs'] = app
        _, x = H.call(wf.start, ctx, flt)
        m = H.arr(matrix(H, rows), 'f')
        flags, work = H.np.zeros(n), m
        tab = H.arr([[H.min([r[0] for r in H.rows(m)]), H.min([r[5] for r in H.rows(m)])]], 'f')
        if 'Afteran' in c['preprocessing_jobs']:
            (_, work, flags), y = H.call(de.afteran_decluster, m, 'Uhrhammer', 60.0)
            H.check(y is None, 'the computation exists')
        elif c['preprocessing_jobs']:
            tab, y = H.call(co.stepp_analysis, m[:, 0], m[:, 5], 0.5, 5, 0.1, True)
            H.check(y is None, 'the computation exists')
        want = []
        for v, ring in zip(vs, RINGS):
            mine = [r for r, e, s in zip(rows, EVENTS, H.flat(flags)) if H.decide(H.And(s == 0, inside(H, ring, *places[e[4]])))] if app else []
            want.append(expected(H, v, mine, tab, ['Recurrence']))
        if any(v is None for v in want):
            H.check(x is not None, 'a computation that fails is reported')
            return
        H.check(x is None, 'the workflow runs')
        if x is not None:
            return
        H.check(len(ctx.sm_definitions) == len(want), 'the model is that of this run')
        if len(ctx.sm_definitions) == len(want):
            for s, v in zip(ctx.sm_definitions, want):
                g = source_dict(s)
                for f in sorted(v):
                    H.check(H.close(g[f], v[f]) if f in ('a', 'b', 'min', 'max') else H.same(g[f], v[f]), 'source of this run: ' + f)
        for s, g in old:
            for f, v in sorted(source_dict(s).items()):
                H.check(H.same(v, g[f]), 'the sources of an earlier run are left alone')
        old = [(s, source_dict(s)) for s in ctx.sm_definitions]
    H.cover('run again')


def bad(H):
    """A run that fails leaves no result behind."""
    kind = H.choice('failure', ['catalogue', 'value', 'model', 'job', 'processing job', 'missing', 'directory'])
    rows = rows_of(H, [(11.0, 41.0), (11.25, 41.0)])
    v = source_values(H, 'z0', 3, 1, 1, name='zone', type_tgr='Mw')
    v['vertices'] = RINGS[0]
    c = config(H, eq_catalog_file='cat.csv', source_model_file='model.xml', result_file='out.xml', apply_processing_jobs=True, processing_jobs=['Recurrence'])
    head, xml = header(), model_xml([source_xml(v, drop=('dip',) if kind == 'model' else ())])
    if kind == 'catalogue':
        head = head.replace('Mw', 'MW', 1)
    elif kind == 'value':
        rows[H.choice('row', [0, len(rows) - 1])]['month'] = H.int('month', 13, 99)
    elif kind == 'job':
        c['preprocessing_jobs'] = ['Reasenberg']
    elif kind == 'processing job':
        c['processing_jobs'] = ['Recurrence', 'Bayesian']
    elif kind == 'missing':
        c['eq_catalog_file'] = 'nothing.csv'
    elif kind == 'directory':
        c['result_file'] = 'nowhere/out.xml'
    H.write('cat.csv', catalogue_text(rows, head))
    H.write('model.xml', xml)
    x = run(H, c)
    H.check(x is not None, 'the failure is reported')
    H.check(not os.path.exists(os.path.join(H.tmp(), 'out.xml')), 'no result is left of a run that failed')
    H.cover('refused')


def scenarios(tier):
    t = tier != 'quick'
    u = {'eager': True, 'unit_tokens': True}
    J = [('Recurrence',), ('MaximumMagnitude',), ('Recurrence', 'MaximumMagnitude'), ('MaximumMagnitude', 'Recurrence')]
    A, B = (11.0, 41.0), (15.0, 45.0)
    out = [
        scen('places', zones, p=dict(u, n=6, zones=2, places=((None, None), B), jobs=J[:1]), covers=['updated', 'as it was'],
             bounds='6 events at two places, one anywhere; two overlapping zones; recurrence'),
        scen('both', zones, p=dict(u, n=6, zones=3 if t else 2, places=((None, 43.0), (13.0, None)), jobs=J[2:3]), covers=['updated', 'as it was'],
             bounds='6 events at two places, each anywhere on a line; %d zones; recurrence and maximum magnitude' % (3 if t else 2)),
        scen('jobs', zones, p=dict(u, n=6, zones=2, places=(A, (None, 43.0)), jobs=J + [()], vary=True, apply=[True, False, None], model=[True, False],
                                   tables=[None, [(1950.0, 4.0)], [(1965.0, 4.0), (1950.0, 5.0)]]),
             covers=['updated', 'as it was'], bounds='processing on, off and blank; five job lists; with and without a source model; three completeness tables; one magnitude and one year open'),
        scen('options', zones, p=dict(u, n=6, zones=2, places=((None, 41.0), B), jobs=J[2:3], args=['', '-d -i %s', '-i %s -d', '--input-file %s', '--detailed --input-file=%s']),
             covers=['updated', 'as it was', 'no arguments'], bounds='6 events at two places; the options of the command line in any order'),
        scen('preprocessing', pre, p=dict(u, n=8, vary=True, close=True, pre=[('GardnerKnopoff', 'Stepp'), ('Stepp',), ('Afteran',), ('GardnerKnopoff',)]),
             covers=['some dropped', 'second run', 'one run', 'only preprocessed'], bounds='8 events at two near places, one magnitude, year and day open; four lists of preprocessing jobs; with processing in the same run or without; stored and processed in a second run'),
        scen('again', again, p=dict(u, n=8, runs=2 if not t else 3), covers=['run again'], bounds='%d runs of one workflow on one context; three catalogues and models, with one magnitude open; none or one preprocessing job' % (2 if not t else 3)),
        scen('failures', bad, p=dict(u, n=6), covers=['refused'], bounds='seven kinds of failure')]
    return out
