"""W05: jobs pass each configured parameter and catalogue column in its own role."""
import inspect
from vp.harness import scen
from vp.domain import *

ASSUMPTIONS = ['the computations are stand-ins that record their arguments by position of the real signature']
REAL = {'gardner_knopoff': ('declustering', 'gardner_knopoff_decluster'), 'afteran': ('declustering', 'afteran_decluster'),
        'stepp': ('completeness', 'stepp_analysis'), 'select_eq_vector': ('completeness', 'selected_eq_flag_vector'),
        'recurrence': ('recurrence', 'recurrence_analysis'), 'maximum_magnitude': ('maximum_magnitude', 'maximum_magnitude_analysis')}


def real(H, k):
    m, f = REAL[k]
    return getattr(H.mod('mtoolkit.scientific.' + m), f)


class Rec(object):
    def __init__(self, H, ctx, key, result):
        self.sig = inspect.signature(real(H, key))
        self.calls, self.result = [], result
        ctx.map_sc[key] = self

    def __call__(self, *a, **k):
        b = self.sig.bind(*a, **k)
        b.apply_defaults()
        self.calls.append(list(b.arguments.values()))
        return self.result


def matrix(H, name, n, cols=7):
    return H.arr([H.reals('%s%d_' % (name, i), cols, -9000, 9000) for i in range(n)])


def config(H):
    return {'GardnerKnopoff': {'time_dist_windows': H.text('gk_window', ['GardnerKnopoff', 'Uhrhammer', 'Gruenthal']),
                               'foreshock_time_window': H.real('gk_fs', 0, 1)},
            'Afteran': {'time_dist_windows': H.text('af_window', ['GardnerKnopoff', 'Uhrhammer', 'Gruenthal']),
                        'time_window': H.real('af_time', 0, 1000)},
            'Stepp': {'magnitude_windows': H.real('st_mag', 0.01, 5), 'time_window': H.real('st_time', 0.01, 50),
                      'sensitivity': H.real('st_sens', 0, 5), 'increment_lock': H.choice('lock', [True, False])},
            'Recurrence': {'magnitude_window': H.real('re_mag', 0.01, 5), 'recurrence_algorithm': H.text('re_alg', ['Weichert', 'MLE']),
                           'reference_magnitude': H.real('re_ref', -5, 10), 'time_window': H.real('re_time', 0.01, 50)},
            'MaximumMagnitude': {'maxim_mag_algorithm': H.text('mm_alg', ['Kijko_Nonparametric_Gaussian', 'Cumulative_Moment']),
                                 'iteration_tolerance': H.real('mm_tol', 0, 1), 'maximum_iterations': H.int('mm_iter', 1, 1000),
                                 'neq': H.int('mm_neq', 1, 1000), 'number_samples': H.int('mm_samples', 1, 1000),
                                 'number_bootstraps': H.int('mm_boot', 1, 1000)}}


def agree(H, got, want, label):
    if isinstance(want, str) or isinstance(want, bool) or want is None:
        H.check(H.same(got, want) if isinstance(want, str) else got == want, label)
    else:
        H.eq(got, want, label, tol=0)


def job(H):
    jobs, w = H.mod('mtoolkit.jobs'), H.mod('mtoolkit.workflow')
    which, n = H.p['job'], H.p['n']
    cfg = config(H)
    ctx = w.Context()
    ctx.config = cfg
    ctx.eq_catalog = 'entries'
    full = matrix(H, 'full', n)
    ctx.catalog_matrix = full
    full0, work0, cur0, tab0 = H.flat(full), None, None, None
    declus = which in ('gardner_knopoff', 'afteran')
    work = H.arr([list(r) for r in full]) if declus else matrix(H, 'work', max(1, n - 1))
    cur = matrix(H, 'cur', n)
    tab = matrix(H, 'table', 2, 2)
    flags = H.arr([H.pick('flag%d' % i, [-1.0, 0.0, 1.0]) for i in range(n)])
    ctx.working_catalog, ctx.current_filtered_eq, ctx.completeness_table, ctx.flag_vector = work, cur, tab, flags
    ctx.sm_definitions = [H.mod('mtoolkit.source_model').default_area_source()]
    ctx.cur_sm = ctx.sm_definitions[0]
    keep = dict((k, H.flat(m)) for k, m in (('catalog_matrix', full), ('working_catalog', work), ('current_filtered_eq', cur),
                                            ('completeness_table', tab), ('flag_vector', flags)))
    C = cfg
    if declus:
        vcl = H.arr([H.pick('cluster%d' % i, [0, 1, 2]) if i < 3 else (i * i) % 5 % 3 for i in range(n)])
        main = matrix(H, 'main', 1)
        nfl = H.arr([H.pick('newflag%d' % i, [-1.0, 0.0, 1.0]) if i < 3 else (i * i) % 5 % 3 - 1.0 for i in range(n)])
        r = (vcl, main, nfl)
        c = C['GardnerKnopoff' if which == 'gardner_knopoff' else 'Afteran']
        want = [full, c['time_dist_windows'], c['foreshock_time_window' if which == 'gardner_knopoff' else 'time_window']]
        stored = {'vcl': vcl, 'working_catalog': main, 'flag_vector': nfl}
    elif which == 'stepp':
        r = matrix(H, 'newtable', 3, 2)
        c = C['Stepp']
        want = [work[:, 0], work[:, 5], c['magnitude_windows'], c['time_window'], c['sensitivity'], c['increment_lock']]
        stored = {'completeness_table': r}
    elif which == 'select_eq_vector':
        r = H.arr([H.pick('mark%d' % i, [0, 1]) for i in range(n)])
        want = [full[:, 0], full[:, 5], tab[:, 0], tab[:, 1], flags]
        stored = {'selected_eq_vector': r}
    elif which == 'recurrence':
        r = tuple(H.reals('result', 4, -100, 100))
        c = C['Recurrence']
        want = [cur[:, 0], cur[:, 5], tab, c['magnitude_window'], c['recurrence_algorithm'], c['reference_magnitude'], c['time_window']]
        stored = {}
    else:
        r = tuple(H.reals('result', 2, -100, 100))
        c = C['MaximumMagnitude']
        want = [cur[:, 0], cur[:, 5], cur[:, 6], c['maxim_mag_algorithm'], c['iteration_tolerance'], c['maximum_iterations'], c['neq'],
                c['number_samples'], c['number_bootstraps']]
        stored = {}
    recs = dict((k, Rec(H, ctx, k, r if k == which else None)) for k in REAL)
    fn = getattr(jobs, {'select_eq_vector': 'create_selected_eq_vector'}.get(which, which))
    _, x = H.call(fn, ctx)
    H.check(x is None, 'the job runs')
    if x is not None:
        return
    H.check(all(len(recs[k].calls) == (1 if k == which else 0) for k in recs), 'its computation, once, and no other')
    got = recs[which].calls
    if len(got) != 1:
        return
    # parameters beyond the documented ones keep the defaults of the real function
    H.check(len(got[0]) >= len(want), 'all parameters are passed')
    for i, (a, b) in enumerate(zip(got[0], want)):
        agree(H, a, b, 'parameter %d of %s' % (i + 1, which))
    defaults = [p.default for p in recs[which].sig.parameters.values()]
    for i in range(len(want), len(got[0])):
        a, d = got[0][i], defaults[i]
        H.check(d is not inspect.Parameter.empty and (a is d or bool(H.same(a, d))), 'parameters without a configured value keep their defaults')
    for k, v in stored.items():
        H.eq(getattr(ctx, k), v, k + ' is stored for the next jobs', tol=0)
    for k, v in keep.items():
        if k not in stored:
            g = H.flat(getattr(ctx, k))
            H.check(len(g) == len(v) and bool(H.And(*[H.eqv(a, b) for a, b in zip(g, v)])), k + ' is left alone')
    H.check(ctx.config is cfg and ctx.eq_catalog == 'entries', 'configuration and entries are left alone')
    H.cover('end')


def wiring(H):
    """Each computation is the documented function."""
    ctx = H.mod('mtoolkit.workflow').Context()
    k = H.choice('computation', sorted(REAL))
    H.check(ctx.map_sc[k] is real(H, k), 'the computation of ' + k)
    other = H.mod('mtoolkit.workflow').Context()
    other.map_sc[k] = None
    other.config['x'] = 1
    H.check(ctx.map_sc[k] is real(H, k) and 'x' not in ctx.config, 'contexts are independent')
    H.cover('end')


def reading(H):
    """The catalogue job reads the configured catalogue and no other file."""
    jobs, w = H.mod('mtoolkit.jobs'), H.mod('mtoolkit.workflow')
    n = H.p['n']
    paths = {}
    for k in ('eq_catalog_file', 'pprocessing_result_file', 'completeness_table_file', 'source_model_file', 'result_file'):
        if H.p['blank'] and k not in ('eq_catalog_file',):
            paths[k] = None
        else:
            paths[k] = H.write(k + '.csv', catalogue_text([valid_row(H, k + str(i), ['Mw', 'year'] if k == 'eq_catalog_file' else []) for i in range(n)]))
    rows = [l.split(',') for l in open(paths['eq_catalog_file']).read().splitlines()]
    ctx = w.Context()
    ctx.config = paths
    _, x = H.call(jobs.read_eq_catalog, ctx)
    H.check(x is None, 'read')
    if x is not None:
        return
    want, x = read_catalogue(H, open(paths['eq_catalog_file']).read())
    H.check(len(ctx.eq_catalog) == len(want), 'as many entries as the configured catalogue has')
    for a, b in zip(ctx.eq_catalog, want):
        H.check(H.And(*[H.same(a[f], b[f]) for f in FIELDS]), 'the entries of the configured catalogue, in order')
    H.cover('end')


def scenarios(tier):
    ns = (1, 3, 30) if tier == 'quick' else (1, 2, 3, 6, 100)
    out = [scen('%s-%d' % (k, n), job, p={'job': k, 'n': n}, covers=['end'],
                bounds='any catalogue of %d events, any configuration values, any result' % n) for k in sorted(REAL) for n in ns]
    out += [scen('wiring', wiring, covers=['end'], bounds='6 computations')]
    out += [scen('reading-%d%s' % (n, '-blank' if b else ''), reading, p={'n': n, 'blank': b}, covers=['end'],
                 bounds='%d rows, other files %s' % (n, 'blank' if b else 'other catalogues')) for n, b in ((1, False), (3, True))]
    return out
