"""S03: selection of events by declustering flag and completeness table."""
from vp.harness import scen

ASSUMPTIONS = ['the completeness table has at most the stated number of rows']


def selection(H):
    n, k = H.p['n'], H.p['k']
    sel = H.mod('mtoolkit.scientific.completeness').selected_eq_flag_vector
    year, mw = H.reals('year', n), H.reals('mw', n)
    cyear, cmw = H.reals('cyear', k), H.reals('cmw', k)
    flag = H.ints('flag', n, -3, 3)
    fy, fm, ff = H.arr(year), H.arr(mw), H.arr(flag)
    out = sel(fy, fm, H.arr(cyear), H.arr(cmw), ff)
    H.check(H.shape(out) == (n,), 'one mark per event')
    for i in range(n):
        below = H.Or(*[H.And(year[i] < cyear[j], mw[i] < cmw[j]) for j in range(k)])
        drop = H.Or(flag[i] != 0, below)
        H.check(H.eqv(out[i], H.ite(drop, 1, 0)), 'mark of event %d' % i)
    for i in range(n):
        H.check(H.And(H.eqv(fy[i], year[i]), H.eqv(fm[i], mw[i]), H.eqv(ff[i], flag[i])), 'inputs unchanged')
    H.cover('end')


def scenarios(tier):
    sizes = [(1, 1), (2, 2), (3, 3), (30, 1), (2, 20)] if tier == 'quick' else [(1, 1), (3, 3), (5, 5), (8, 8), (2, 40), (120, 2)]
    return [scen('selection-%d-%d' % s, selection, p={'n': s[0], 'k': s[1]}, covers=['end'],
                 bounds='%d events, %d table rows, any reals' % s) for s in sizes]
