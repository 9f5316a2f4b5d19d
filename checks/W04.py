"""W04: job results go to the right fields of the current source only."""
from vp.harness import scen

ASSUMPTIONS = ['the computations are stand-ins with arbitrary finite results', 'results are numbers the log can format']
TOP = ['nrml_id', 'source_model_id', 'area_source_id', 'name', 'tectonic_region', 'area_boundary', 'rupture_depth_dist', 'hypocentral_depth']
TGR = ['a_value', 'b_value', 'min_magnitude', 'max_magnitude']


def source(H, i, like=None):
    m = H.mod('mtoolkit.source_model')
    s = m.default_area_source()
    s.nrml_id = s.source_model_id = 'n%d' % i
    s.area_source_id, s.name, s.tectonic_region = 'id%d' % i, 'zone %d' % i, 'Active Shallow Crust'
    s.area_boundary = m.AREA_BOUNDARY('urn', [m.POINT(1.0 * i, 2.0), m.POINT(3.0, 4.0)])
    v = dict((k, H.real('s%d_%s' % (i, k), -100, 100) if like is None else like[k]) for k in TGR + ['strike', 'dip', 'rake', 'depth'])
    s.rupture_rate_model = m.RUPTURE_RATE_MODEL(m.TRUNCATED_GUTEN_RICHTER(
        v['a_value'], v['b_value'], v['min_magnitude'], v['max_magnitude'], 'ML'), v['strike'], v['dip'], v['rake'])
    s.rupture_depth_dist = m.RUPTURE_DEPTH_DISTRIB(m.MAGNITUDE('Mw', [6.5 + i]), [v['depth']])
    s.hypocentral_depth = 5000.0 + i
    v['type_tgr'] = 'ML'
    v['top'] = dict((k, getattr(s, k)) for k in TOP)
    return s, v


def same_source(H, s, v, label):
    r = s.rupture_rate_model
    t = r.truncated_gutenberg_richter
    H.check(H.And(*[H.eqv(getattr(t, k), v[k]) for k in TGR]), label + ': recurrence fields')
    H.check(t.type_tgr == v['type_tgr'], label + ': type')
    H.check(H.And(*[H.eqv(getattr(r, k), v[k]) for k in ('strike', 'dip', 'rake')]), label + ': strike, dip and rake')
    for k in TOP:
        H.check(bool(H.same(getattr(s, k), v['top'][k])), label + ': ' + k)


def results(H):
    jobs, w = H.mod('mtoolkit.jobs'), H.mod('mtoolkit.workflow')
    n = H.p['n']
    src = [source(H, i) for i in range(n)]
    cur = H.choice('current', list(range(n)))
    order = H.choice('jobs', H.p['orders'])
    ctx = w.Context()
    ref = H.real('reference', -5, 12)
    ctx.config = {'Recurrence': {'magnitude_window': 0.5, 'recurrence_algorithm': 'MLE', 'reference_magnitude': ref, 'time_window': 5.0},
                  'MaximumMagnitude': {'maxim_mag_algorithm': 'Kijko_Nonparametric_Gaussian', 'iteration_tolerance': 0.1, 'maximum_iterations': 100,
                                       'neq': 10, 'number_samples': 51, 'number_bootstraps': 20}}
    ctx.completeness_table = H.arr([[H.num(1950.0), H.num(4.0)]])
    ctx.sm_definitions = [s for s, v in src]
    ctx.working_catalog = ctx.catalog_matrix = H.arr([[H.num(float(k)) for k in range(7)]])
    ctx.current_filtered_eq = H.arr([[H.num(1960.0), H.num(1.0), H.num(2.0), H.num(10.0), H.num(20.0), H.num(5.0), H.num(0.1)]])
    ncall = [0]

    def rec(*a, **k):
        ncall[0] += 1
        return res['rec%d' % ncall[0]]

    def mm(*a, **k):
        ncall[0] += 1
        return res['mm%d' % ncall[0]]
    res = {}
    for i, j in enumerate(order):
        res['%s%d' % (j, i + 1)] = tuple(H.reals('%s%d_' % (j, i + 1), 4 if j == 'rec' else 2, -1000, 1000))
    ctx.map_sc['recurrence'], ctx.map_sc['maximum_magnitude'] = rec, mm
    s, v = src[cur]
    ctx.cur_sm = s
    for i, j in enumerate(order):
        _, x = H.call(jobs.recurrence if j == 'rec' else jobs.maximum_magnitude, ctx)
        H.check(x is None, 'the job runs')
        if x is not None:
            return
        r = res['%s%d' % (j, i + 1)]
        if j == 'rec':
            v['b_value'], v['sigb'], v['a_value'], v['siga'] = r
            v['min_magnitude'] = ref
        else:
            v['max_magnitude'], v['sigm'] = r
    H.check(ncall[0] == len(order), 'each computation is done once')
    for i in range(n):
        same_source(H, src[i][0], src[i][1], 'the current source' if i == cur else 'another source')
    if 'rec' in order:
        H.check(H.And(H.eqv(s.recurrence_sigb, v['sigb']), H.eqv(s.recurrence_siga_m, v['siga'])), 'uncertainties of recurrence')
    if 'mm' in order:
        H.check(H.eqv(s.max_mag_sigma, v['sigm']), 'uncertainty of the maximum magnitude')
    H.check(ctx.cur_sm is s and all(a is b[0] for a, b in zip(ctx.sm_definitions, src)), 'the model keeps its sources')
    H.eq(ctx.completeness_table, H.arr([[H.num(1950.0), H.num(4.0)]]), 'the completeness table is left alone', tol=0)
    H.cover('end')


def switching(H):
    """The current source changes between the jobs; the sources may agree in every value."""
    jobs, w = H.mod('mtoolkit.jobs'), H.mod('mtoolkit.workflow')
    n = H.p['n']
    src = [source(H, i) for i in range(n)]
    if H.p['alike']:
        src = src[:1] + [source(H, 0, src[0][1]) for i in range(1, n)]
    ctx = w.Context()
    ref = H.real('reference', -5, 12)
    ctx.config = {'Recurrence': {'magnitude_window': 0.5, 'recurrence_algorithm': 'MLE', 'reference_magnitude': ref, 'time_window': 5.0},
                  'MaximumMagnitude': {'maxim_mag_algorithm': 'Kijko_Nonparametric_Gaussian', 'iteration_tolerance': 0.1, 'maximum_iterations': 100,
                                       'neq': 10, 'number_samples': 51, 'number_bootstraps': 20}}
    ctx.completeness_table = H.arr([[H.num(1950.0), H.num(4.0)]])
    ctx.sm_definitions = [s for s, v in src]
    ctx.working_catalog = ctx.catalog_matrix = H.arr([[H.num(float(k)) for k in range(7)]])
    ctx.current_filtered_eq = H.arr([[H.num(1960.0), H.num(1.0), H.num(2.0), H.num(10.0), H.num(20.0), H.num(5.0), H.num(0.1)]])
    res = []
    ctx.map_sc['recurrence'] = ctx.map_sc['maximum_magnitude'] = lambda *a, **k: res[-1]
    for k in range(H.p['steps']):
        cur, j = H.choice('current%d' % k, list(range(n))), H.choice('job%d' % k, ['rec', 'mm'])
        s, v = src[cur]
        ctx.cur_sm = s
        r = tuple(H.reals('r%d_' % k, 4 if j == 'rec' else 2, -1000, 1000))
        res.append(r)
        _, x = H.call(jobs.recurrence if j == 'rec' else jobs.maximum_magnitude, ctx)
        H.check(x is None, 'the job runs')
        if x is not None:
            return
        if j == 'rec':
            v['b_value'], v['sigb'], v['a_value'], v['siga'] = r
            v['min_magnitude'] = ref
        else:
            v['max_magnitude'], v['sigm'] = r
    for s, v in src:
        same_source(H, s, v, 'each source has its own results')
        if 'sigb' in v:
            H.check(H.And(H.eqv(s.recurrence_sigb, v['sigb']), H.eqv(s.recurrence_siga_m, v['siga'])), 'uncertainties of recurrence')
        if 'sigm' in v:
            H.check(H.eqv(s.max_mag_sigma, v['sigm']), 'uncertainty of the maximum magnitude')
    H.check(len(ctx.sm_definitions) == n and all(a is b[0] for a, b in zip(ctx.sm_definitions, src)), 'the model keeps its sources')
    H.cover('end')


def scenarios(tier):
    o = [('rec',), ('mm',), ('rec', 'mm'), ('mm', 'rec'), ('rec', 'rec')]
    if tier != 'quick':
        o += [('mm', 'mm'), ('rec', 'mm', 'rec'), ('mm', 'rec', 'mm')]
    k = 3 if tier == 'quick' else 4
    return [scen('switching' + ('-alike' if a else ''), switching, p={'n': 2, 'alike': a, 'steps': k}, covers=['end'],
                 bounds='2 sources%s, %d jobs, each of any source' % (' that agree in every value' if a else '', k)) for a in (False, True)] + [
            scen('sources-%d' % n, results, p={'n': n, 'orders': o}, covers=['end'],
                 bounds='%d sources with any values, any of them current, any results, %d job sequences' % (n, len(o)))
            for n in ((1, 2, 3, 12) if tier == 'quick' else (1, 2, 3, 5, 40))]
