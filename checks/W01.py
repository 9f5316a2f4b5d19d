"""W01: pipelines run exactly the configured jobs, in order."""
from vp.harness import scen

JOBS = {'GardnerKnopoff': 'gardner_knopoff', 'Afteran': 'afteran', 'Stepp': 'stepp', 'Recurrence': 'recurrence',
        'MaximumMagnitude': 'maximum_magnitude', 'Create_eq_vector': 'create_selected_eq_vector',
        'Store_eq_catalog': 'store_preprocessed_catalog', 'Store_completeness_table': 'store_completeness_table',
        'Retrieve_completeness_table': 'retrieve_completeness_table'}
NAMES = sorted(JOBS) + ['Kijko', 'stepp', '', 'Stepp ']
FEW = ['GardnerKnopoff', 'Afteran', 'Stepp', 'Recurrence', 'MaximumMagnitude', 'Weichert']
KEYS = ['eq_catalog_file', 'source_model_file', 'pprocessing_result_file', 'completeness_table_file', 'result_file',
        'apply_processing_jobs', 'preprocessing_jobs', 'processing_jobs']


def build(H):
    w, j = H.mod('mtoolkit.workflow'), H.mod('mtoolkit.jobs')
    stage = H.p['stage']
    cfg = dict.fromkeys(KEYS)
    cfg['eq_catalog_file'] = 'catalogue.csv'
    for k, path in (('source_model_file', 'model.xml'), ('pprocessing_result_file', 'out.csv'), ('completeness_table_file', 'table.csv')):
        cfg[k] = H.text(k, [None, path, ''])
    cfg['apply_processing_jobs'] = H.choice('apply', [None, True])
    n = H.p['n']
    names = [H.text('job%d' % i, H.p['names']) for i in range(n)]
    other = ['Stepp', 'Recurrence']
    if n == 0:
        names = H.choice('no jobs', [None, []])
    cfg['preprocessing_jobs'], cfg['processing_jobs'] = (names, other) if stage == 'pre' else (other, names)
    known = [H.Or(*[x == k for k in JOBS]) for x in names or []]
    before = dict(cfg)
    keep = list(names or [])
    B = w.PreprocessingBuilder if stage == 'pre' else w.ProcessingBuilder
    # pipelines built before and after have no influence
    first = w.ProcessingBuilder().build(dict(cfg, processing_jobs=['Recurrence', 'MaximumMagnitude']))
    builder = B()
    pipe, x = H.call(builder.build, cfg)
    if x is not None:
        H.check(H.Not(H.And(*known)), 'known jobs are accepted')
        H.cover('refused')
        return
    H.check(H.And(*known), 'an unknown job name is refused')
    want = [JOBS[str(x)] for x in names or []]
    if stage == 'pre':
        want = ['read_eq_catalog', 'read_source_model' if cfg['source_model_file'] else 'create_default_source_model',
                'create_catalog_matrix', 'create_default_values'] + want
        if names:
            if cfg['pprocessing_result_file']:
                want += ['create_selected_eq_vector', 'store_preprocessed_catalog', 'store_completeness_table']
        elif cfg['completeness_table_file']:
            want += ['retrieve_completeness_table']
    fns = [getattr(j, k) for k in want]
    H.check(len(pipe.jobs) == len(fns) and all(a is b for a, b in zip(pipe.jobs, fns)), 'exactly the configured jobs, in order')
    H.check(cfg == before and (names is None or list(names) == keep), 'the configuration is left alone')
    # a second pipeline has nothing of the first
    again, x = H.call(builder.build, cfg)
    H.check(x is None and len(again.jobs) == len(fns) and all(a is b for a, b in zip(again.jobs, fns)), 'the same when built again')
    w.PreprocessingBuilder().build(dict(cfg, preprocessing_jobs=['Afteran'], pprocessing_result_file='x.csv'))
    H.check(len(pipe.jobs) == len(fns) and len(again.jobs) == len(fns), 'pipelines are independent')
    H.check(first.jobs == [j.recurrence, j.maximum_magnitude], 'pipelines are independent')
    a, b = w.Context(), w.Context()
    a.config['x'] = 1
    a.map_sc['stepp'] = None
    H.check(b.config == {} and b.map_sc['stepp'] is not None, 'contexts are independent')
    H.cover('built')


def run(H):
    w = H.mod('mtoolkit.workflow')
    n = H.p['n']
    log = []
    pool = [(lambda i: lambda ctx: log.append((i, ctx)))(i) for i in range(3)]
    ids = [H.concrete_int(H.int('job%d' % i, 0, 2)) for i in range(n)]
    k = H.concrete_int(H.int('given', 0, n))
    jobs = [pool[i] for i in ids]
    p = w.PipeLine(jobs[:k]) if k or H.choice('empty', [False, True]) else w.PipeLine()
    for f in jobs[k:]:
        p.add_job(f)
    ctx = w.Context()
    _, x = H.call(p.run, ctx)
    H.check(x is None, 'runs')
    H.check([i for i, c in log] == ids, 'each job once, in order')
    H.check(all(c is ctx for i, c in log), 'all with the context')
    _, x = H.call(p.run, ctx)
    H.check([i for i, c in log] == ids + ids, 'again when run again')
    q = w.PipeLine()
    q.run(ctx)
    H.check(len(log) == 2 * n, 'an empty pipeline runs nothing')
    H.cover('end')


def equality(H):
    """Pipelines are equal exactly when they hold the same jobs in the same order."""
    w = H.mod('mtoolkit.workflow')
    pool = [(lambda i: lambda ctx: i)(i) for i in range(3)]
    ids = [[H.concrete_int(H.int('%s%d' % (s, i), 0, 2)) for i in range(H.p['n'])] for s in 'ab']
    ids[1] = ids[1][:H.choice('length', list(range(H.p['n'] + 1)))]
    a, b = w.PipeLine([pool[i] for i in ids[0]]), w.PipeLine([pool[i] for i in ids[1]])
    H.check(bool(a == b) == (ids[0] == ids[1]) and bool(a != b) == (ids[0] != ids[1]), 'equal exactly when the jobs are, in order')
    H.cover('equal' if ids[0] == ids[1] else 'unequal')


def failing(H):
    """A job that raises stops the pipeline, and the error is not swallowed."""
    w = H.mod('mtoolkit.workflow')
    n = H.p['n']
    at = H.concrete_int(H.int('failing', 0, n - 1))
    log = []

    def job(i):
        def f(ctx):
            log.append(i)
            if i == at:
                raise KeyError('job %d' % i)
        return f
    _, x = H.call(w.PipeLine([job(i) for i in range(n)]).run, w.Context())
    H.check(isinstance(x, KeyError), 'the error of a job is reported')
    H.check(log == list(range(at + 1)), 'the jobs after it do not run')
    H.cover('end')


def scenarios(tier):
    t = tier != 'quick'
    out = []
    for stage in ('pre', 'proc'):
        for n in ((0, 1, 2) if not t else (0, 1, 2, 3)):
            out.append(scen('%s-%d' % (stage, n), build, p={'stage': stage, 'n': n, 'names': NAMES if n < (2 if not t else 3) else FEW},
                            covers=['built'] + (['refused'] if n else []),
                            bounds='%d jobs of %d names, each file configured, blank or missing' % (n, len(NAMES if n < (2 if not t else 3) else FEW))))
    out += [scen('run-%d' % n, run, p={'n': n}, covers=['end'], bounds='%d jobs of 3, any number given at first' % n) for n in ((0, 1, 3) if not t else (0, 1, 3, 5))]
    out.append(scen('equality', equality, p={'n': 2 if not t else 3}, covers=['equal', 'unequal'], bounds='pipelines of up to %d jobs of 3' % (2 if not t else 3)))
    out.append(scen('failing', failing, p={'n': 4}, covers=['end'], bounds='4 jobs, any one failing'))
    return out
