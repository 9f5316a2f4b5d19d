"""C06: the numeric catalogue and default values."""
from vp.harness import scen
from vp.domain import *

COLS = ['year', 'month', 'day', 'longitude', 'latitude', 'Mw', 'sigmaMw']


def matrix(H):
    H.set_now(2024)
    jobs = H.mod('mtoolkit.jobs')
    n = H.p['n']
    if 'places' in H.p:
        rows = long_rows(H, n, H.p['places'], COLS)
    else:
        rows = [valid_row(H, str(i), COLS + ['hour', 'depth', 'Ms'] if n <= 3 else COLS) for i in range(n)]
    if H.p.get('read'):
        entries, x = read_catalogue(H, catalogue_text(rows))
        H.check(x is None, 'the rows are valid')
        if x is not None:
            return
    else:
        entries = [dict(r) for r in rows]
    ctx = Context(eq_catalog=entries, config={})
    _, x = H.call(jobs.create_catalog_matrix, ctx)
    H.check(x is None, 'no exception')
    if x is not None:
        return
    for name in ('catalog_matrix', 'working_catalog'):
        m = getattr(ctx, name)
        H.check(H.shape(m) == (n, 7), 'one row per entry, seven columns')
        for i in range(n):
            for j, c in enumerate(COLS):
                H.check(H.eqv(m[i, j], rows[i][c]), 'each row is its entry')
    _, x = H.call(jobs.create_default_values, ctx)
    H.check(x is None, 'no exception')
    if x is not None:
        return
    t = ctx.completeness_table
    H.check(H.shape(t) == (1, 2), 'default completeness table has one row')
    H.check(H.eqv(t[0, 0], H.min([r['year'] for r in rows])), 'earliest year')
    H.check(H.eqv(t[0, 1], H.min([r['Mw'] for r in rows])), 'smallest magnitude')
    H.check(H.shape(ctx.flag_vector) == (n,), 'one flag per event')
    H.check(H.And(*[f == 0 for f in ctx.flag_vector]), 'no event flagged')
    # independence
    a, b = ('catalog_matrix', 'working_catalog') if H.choice('which', [0, 1]) else ('working_catalog', 'catalog_matrix')
    A, B = getattr(ctx, a), getattr(ctx, b)
    i = n - 1
    for j in range(7):
        A[i, j] = 999.5
    A[0, 5] = -7.25
    for i in range(n):
        for j, c in enumerate(COLS):
            H.check(H.eqv(B[i, j], rows[i][c]), 'the other catalogue is as it was')
            H.check(H.same(entries[i][c], rows[i][c]), 'the entries are as they were')
    H.cover('end')


def wired(H):
    """Reading through the job: entries of the configured file, in order."""
    H.set_now(2024)
    jobs = H.mod('mtoolkit.jobs')
    rows = [valid_row(H, str(i), ['eventID', 'Mw', 'latitude']) for i in range(2)]
    p = H.write('in.csv', catalogue_text(rows))
    H.write('other.csv', catalogue_text([VALID]))
    ctx = Context(config={'eq_catalog_file': p})
    _, x = H.call(jobs.read_eq_catalog, ctx)
    H.check(x is None and len(ctx.eq_catalog) == 2, 'the catalogue file is read')
    if x is None:
        for e, r in zip(ctx.eq_catalog, rows):
            H.check(H.And(*[H.same(e[f], r[f]) for f in FIELDS]), 'its entries in order')
    H.cover('end')


def scenarios(tier):
    ns = (1, 2, 4) if tier == 'quick' else (1, 2, 3, 6, 10)
    return [scen('events-%d' % n, matrix, p={'n': n, 'read': n <= 3}, covers=['end'],
                 bounds='%d entries, any valid values' % n) for n in ns] + \
        [scen('many', matrix, p={'n': 300, 'places': (0, 150, 299)}, covers=['end'], bounds='300 entries, three of them with any valid values')] + \
        [scen('read-job', wired, covers=['end'], bounds='2 rows')]
