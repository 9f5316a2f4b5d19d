"""C05: the stored catalogue."""
import csv
import os
from vp.harness import scen
from vp.domain import *

ASSUMPTIONS = ['selection marks are 0 or 1', 'the matrix has one row per entry']


def stored(H):
    H.set_now(2024)
    jobs = H.mod('mtoolkit.jobs')
    n = H.p['n']
    many = H.p.get('places')
    rows = long_rows(H, n, many, H.p['sym']) if many else [valid_row(H, str(i), H.p['sym']) for i in range(n)]
    if H.p.get('blank'):
        for i in range(n):
            rows[i]['ML' if i % 2 else 'second'] = ''
    entries, x = read_catalogue(H, catalogue_text(rows))
    H.check(x is None, 'the rows are valid')
    if x is not None:
        return
    keep = [dict(e) for e in entries]
    if many:
        marks = [H.int('mark%d' % i, 0, 1) if i in many else (i * i) % 3 % 2 for i in range(n)]
    else:
        marks = H.ints('mark', n, 0, 1)
    path = os.path.join(H.tmp(), 'stored.csv')
    if H.p.get('stale'):
        H.write('stored.csv', catalogue_text([VALID] * (n + 3)))
    sel = H.arr([H.num(v) for v in marks])
    ctx = Context(config={'pprocessing_result_file': path}, eq_catalog=entries, selected_eq_vector=sel,
                  catalog_matrix=H.arr([[1.0] * 7] * n), working_catalog=H.arr([[1.0] * 7] * n),
                  flag_vector=H.arr([0.0] * n))
    _, x = H.call(jobs.store_preprocessed_catalog, ctx)
    H.check(x is None, 'stored')
    if x is not None:
        return
    got, x = read_catalogue(H, open(path).read(), 'again.csv')
    H.check(x is None, 'the stored catalogue is valid')
    if x is not None:
        return
    want = [keep[i] for i in range(n) if H.decide(marks[i] == 0)]
    H.check(len(got) == len(want), 'as many entries as selected')
    if len(got) != len(want):
        return
    for g, w in zip(got, want):
        for f in FIELDS:
            H.check(H.same(g[f], w[f]), 'the selected entries, in order, unchanged')
    H.check(len(ctx.eq_catalog) == n, 'the catalogue itself is not changed')
    for e, k in zip(ctx.eq_catalog, keep):
        H.check(H.And(*[H.same(e[f], k[f]) for f in FIELDS]), 'the catalogue itself is not changed')
    H.cover('end' if many else '%d kept' % len(want))


def scenarios(tier):
    t = tier != 'quick'
    S = ['eventID', 'year', 'longitude', 'Mw', 'sigmaMw']
    out = [scen('events-%d' % n, stored, p={'n': n, 'sym': S, 'stale': n % 2 == 0, 'blank': n > 2},
                covers=['%d kept' % k for k in range(n + 1)],
                bounds='%d entries, any values in five cells, any selection' % n) for n in ((1, 2, 4) if not t else (1, 2, 3, 5, 7))]
    out.append(scen('equal-entries', stored, p={'n': 3, 'sym': [], 'stale': True}, covers=['0 kept', '3 kept'],
                    bounds='3 entries alike, any selection'))
    m = 400 if t else 120
    out.append(scen('many', stored, p={'n': m, 'sym': S[:3], 'places': (0, 1, m // 2, m - 1), 'stale': True}, covers=['end'],
                    bounds='%d entries, four of them with any values in three cells and any selection' % m))
    return out
