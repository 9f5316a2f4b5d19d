"""S04: the completeness table survives storing and retrieving."""
import os
from vp.harness import scen


class Context(object):
    pass


def roundtrip(H):
    jobs = H.mod('mtoolkit.jobs')
    n = H.p['n']
    years = H.reals('year', n, -10000, 2200)
    mags = H.reals('mag', n, -2, 11)
    tab = H.arr([[y, m] for y, m in zip(years, mags)])
    path = os.path.join(H.tmp(), 'table.csv')
    if H.p['stale']:
        H.write('table.csv', '1.0,2.0\n' * 9)
    ctx = Context()
    ctx.config = {'completeness_table_file': path, 'pprocessing_result_file': '/nonexistent/x'}
    ctx.completeness_table = tab
    _, x = H.call(jobs.store_completeness_table, ctx)
    H.check(x is None, 'stored')
    if x is not None:
        return
    for i in range(n):
        H.check(H.And(H.eqv(tab[i, 0], years[i]), H.eqv(tab[i, 1], mags[i])), 'storing leaves the table alone')
    other = Context()
    other.config = dict(ctx.config)
    _, x = H.call(jobs.retrieve_completeness_table, other)
    H.check(x is None, 'retrieved')
    if x is not None:
        return
    t = other.completeness_table
    H.check(H.shape(t) == (n, 2), 'two columns, one row per row')
    for i in range(n):
        H.check(H.And(H.abs(t[i, 0] - years[i]) <= 5.1e-6, H.abs(t[i, 1] - mags[i]) <= 5.1e-6), 'same values to five decimals')
    # usable where preprocessing put it
    sel = H.mod('mtoolkit.scientific.completeness').selected_eq_flag_vector
    _, x = H.call(sel, H.arr([H.num(2000.0)]), H.arr([H.num(5.0)]), t[:, 0], t[:, 1], H.arr([H.num(0.0)]))
    H.check(x is None, 'the retrieved table has the columns its readers use')
    H.cover('end')


def scenarios(tier):
    ns = [1, 2, 5, 30] if tier == 'quick' else [1, 2, 3, 5, 12, 60]
    return [scen('rows-%d%s' % (n, '-stale' if s else ''), roundtrip, p={'n': n, 'stale': s}, covers=['end'],
                 bounds='%d rows, any years in [-10000, 2200] and magnitudes in [-2, 11]%s' % (
                     n, ', over an older file' if s else '')) for n in ns for s in (False, True)]
