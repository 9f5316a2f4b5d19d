"""C02: blanking of optional cells."""
from vp.harness import scen
from vp.domain import *

ASSUMPTIONS = ['rows have at most 25 cells and are not blank', 'numbers other than seconds and strike are finite']


def opt_cell(H, f, kinds, tag=''):
    """(text, number or None)."""
    k = H.choice('kind_' + f + tag, kinds)
    if k == 'number':
        v = H.real(f + tag, -1000000, 1000000)
        return str(v), v
    return {'word': 'n/a', 'empty': '', 'blanks': '  '}[k], None


def judge(H, e, row, num):
    """e: entry read; row: texts or values of all cells; num: number (or None) of each optional cell."""
    ok = {}
    for f in OPTIONAL:
        v = num[f]
        if v is None:
            ok[f] = False
        elif f == 'second':
            ok[f] = H.And(v >= 0, v < 60)
        elif f == 'ErrorStrike':
            ok[f] = H.And(v >= 0, v <= 360)
        elif f in NONNEG:
            ok[f] = v >= 0
        else:
            ok[f] = True
    ell = H.And(*[ok[f] for f in ELLIPSE])
    if all(num[f] is not None for f in ELLIPSE):
        ell = H.And(ell, num['SemiMinor90'] <= num['SemiMajor90'])
    for f in ELLIPSE:
        ok[f] = ell
    for f in OPTIONAL:
        got = e[f]
        if got is None:
            H.fail('%s: a value or an empty text' % f)
        elif isinstance(got, str):
            H.check(got == '' and f != 'sigmaMw', '%s: blank is the empty text' % f)
            H.check(H.Not(ok[f]), '%s: valid value kept' % f)
            H.cover('blanked')
        elif f == 'sigmaMw':
            H.check(H.eqv(got, 0.0 if num[f] is None else H.ite(ok[f], num[f], 0.0)), 'sigmaMw: kept, or zero')
        else:
            H.check(ok[f], '%s: bad value blanked' % f)
            if num[f] is not None:
                H.check(H.eqv(got, num[f]), '%s: value unchanged' % f)
            H.cover('kept')
    for f in COMPULSORY:
        H.check(H.eqv(e[f], row[f]), 'other fields unchanged')
    H.check(e['Agency'] == row['Agency'], 'other fields unchanged')
    H.check(set(e) == set(FIELDS), 'the documented fields and no others')


def read(H, rows):
    entries, x = read_catalogue(H, catalogue_text(rows))
    H.check(x is None, 'the row is not refused')
    if x is not None:
        return None
    H.check(len(entries) == len(rows), 'one entry for each row')
    return entries


def with_cells(H, cells, base=VALID):
    row = dict(base)
    num = dict((f, VALID[f]) for f in OPTIONAL)
    for f, (text, v) in cells.items():
        row[f], num[f] = text, v
    return row, num


def fields_pair(H):
    """Two optional cells anything."""
    H.set_now(2024)
    f = H.choice('f', OPTIONAL)
    rest = OPTIONAL[OPTIONAL.index(f) + 1:]
    if not rest:
        cells = {f: opt_cell(H, f, H.p['kinds'])}
    else:
        g = H.choice('g', rest)
        cells = {f: opt_cell(H, f, H.p['kinds']), g: opt_cell(H, g, H.p['kinds2'])}
    row, num = with_cells(H, cells)
    es = read(H, [row])
    if es:
        judge(H, es[0], row, num)


def ellipse(H):
    H.set_now(2024)
    cells = dict((f, opt_cell(H, f, H.p['kinds'])) for f in ELLIPSE)
    row, num = with_cells(H, cells)
    es = read(H, [row])
    if es:
        judge(H, es[0], row, num)


def magnitudes(H):
    """All magnitudes and their uncertainties any numbers at once."""
    H.set_now(2024)
    cells = dict((f, opt_cell(H, f, ['number'])) for f in H.p['fields'])
    row, num = with_cells(H, cells)
    es = read(H, [row])
    if es:
        judge(H, es[0], row, num)


def truncated(H):
    """The row ends after a compulsory cell: the rest is missing."""
    H.set_now(2024)
    n = H.choice('cells', list(range(18, 26)))
    f = H.choice('f', ['second', 'depthError', 'ErrorStrike', 'sigmaMw'])
    cells = {f: opt_cell(H, f, ['number', 'empty'])}
    row, num = with_cells(H, cells)
    for g in FIELDS[n:]:
        num[g] = None
    es = read(H, [line(row, n)])
    if es:
        judge(H, es[0], row, num)


def not_finite(H):
    """Seconds and strikes that are in no range."""
    H.set_now(2024)
    f = H.choice('f', ['second', 'ErrorStrike'] + NONNEG)
    g = H.choice('g', ['second', 'ErrorStrike', 'SemiMinor90', 'depthError'])
    cells = {g: opt_cell(H, g, ['number', 'empty'])}
    cells[f] = (H.choice('text', ['nan', 'inf', '-inf'] if f in ('second', 'ErrorStrike') else ['-inf']), None)
    row, num = with_cells(H, cells)
    es = read(H, [row])
    if es:
        judge(H, es[0], row, num)


def rows(H):
    """Several rows: one row's blanks do not reach another's."""
    H.set_now(2024)
    n = H.p['n']
    rs, nums = [], []
    for i in range(n):
        f = H.choice('f%d' % i, H.p['fields'])
        cells = {f: opt_cell(H, f, ['number', 'word'], str(i))}
        base = dict(VALID, eventID=i + 1, month=i + 4, Mw=5.0 + i)
        row, num = with_cells(H, cells, base)
        rs.append(row)
        nums.append(num)
    es = read(H, rs)
    if es:
        for e, r, num in zip(es, rs, nums):
            judge(H, e, r, num)


def scenarios(tier):
    t = tier != 'quick'
    K = ['number', 'word', 'empty', 'blanks']
    mags = ['Mw', 'Ms', 'sigmaMs', 'mb', 'sigmamb', 'ML', 'sigmaML']
    return [scen('not-finite', not_finite, covers=['blanked', 'kept'],
                 bounds='seconds or strike nan or infinite, or an uncertainty or axis minus infinity, one of four other cells any number or blank'),
            scen('ellipse', ellipse, p={'kinds': K if t else K[:3]}, covers=['blanked', 'kept'],
                 bounds='each of the three ellipse cells any number, a word or empty'),
            scen('pairs', fields_pair, p={'kinds': K if t else ['number', 'empty'], 'kinds2': K if t else ['number', 'word']},
                 covers=['blanked', 'kept'], bounds='any two of the 13 optional cells any number or bad'),
            scen('sigmas', magnitudes, p={'fields': ['depthError', 'sigmaMw', 'sigmaMs', 'sigmamb', 'sigmaML'] +
                                          (['second', 'Ms', 'ML'] if t else [])},
                 covers=['blanked', 'kept'], bounds='all uncertainties any numbers at once'),
            scen('free', magnitudes, p={'fields': ['timeError', 'Ms', 'mb', 'ML']}, covers=['kept'],
                 bounds='time error and magnitudes any numbers at once'),
            scen('truncated', truncated, covers=['blanked', 'kept'], bounds='rows of 18 to 25 cells'),
            scen('rows', rows, p={'n': 3 if t else 2, 'fields': ['second', 'ErrorStrike', 'SemiMinor90', 'sigmaMw', 'mb', 'sigmaML']
                                  if t else ['second', 'SemiMinor90', 'sigmaMw', 'sigmaML']},
                 covers=['blanked', 'kept'], bounds='%d rows with one bad cell each' % (3 if t else 2))]
