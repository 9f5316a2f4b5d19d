"""C03: header, row order, location of errors."""
import re
from vp.harness import scen
from vp.domain import *

ASSUMPTIONS = ['rows have at most 25 cells and are not blank', 'numbers are finite']


def head_variant(H):
    k = H.choice('change', ['drop', 'rename', 'case', 'swap', 'repeat', 'extra first', 'extra last', 'none', 'blanks',
                            'inner blank', 'data first', 'empty', 'first only'])
    F = list(FIELDS)
    if k in ('drop', 'rename', 'case', 'repeat', 'inner blank'):
        i = H.choice('column', list(range(25)))
        if k == 'drop':
            del F[i]
        elif k == 'rename':
            F[i] = F[i] + 'x'
        elif k == 'case':
            F[i] = F[i].swapcase()
        elif k == 'repeat':
            F.insert(i, F[i])
        else:
            F[i] = F[i][0] + ' ' + F[i][1:]
    elif k == 'swap':
        i = H.choice('column', list(range(24)))
        j = H.choice('other', list(range(i + 1, 25)) if H.p['all'] else [i + 1, 24] if i < 23 else [24])
        F[i], F[j] = F[j], F[i]
    elif k == 'extra first':
        F = ['id'] + F
    elif k == 'extra last':
        F.append('comment')
    elif k == 'blanks':
        F = [' ' * (i % 3) + f + '\t' * (i % 2) for i, f in enumerate(F)]
    elif k == 'empty':
        F = ['']
    elif k == 'first only':
        F = F[:1]
    if k == 'data first':
        return line(VALID), False
    return ','.join(F), k in ('none', 'blanks')


def headers(H):
    H.set_now(2024)
    m = H.mod('mtoolkit.eqcatalog')
    text, ok = head_variant(H)
    mw = H.real('Mw', -5, 11)
    row = dict(VALID, Mw=mw)
    entries, x = read_catalogue(H, catalogue_text([row], text))
    if ok:
        H.check(x is None and len(entries) == 1, 'the documented header is accepted')
        if x is None:
            H.check(H.And(*[H.same(entries[0][f], row[f]) for f in FIELDS]), 'each value under its column name')
        H.cover('accepted')
    else:
        H.check(isinstance(x, m.MalformedCatalogError), 'any other header is refused as malformed')
        H.cover('refused')


def order(H):
    """Rows in file order, each value under its own name."""
    H.set_now(2024)
    n = H.p['n']
    rows = long_rows(H, n, H.p['places'], H.p['sym']) if 'places' in H.p else [valid_row(H, str(i), H.p['sym']) for i in range(n)]
    entries, x = read_catalogue(H, catalogue_text(rows))
    H.check(x is None, 'valid rows are read')
    if x is not None:
        return
    H.check(len(entries) == n, 'one entry for each line')
    for e, r in zip(entries, rows):
        H.check(set(e) == set(FIELDS), 'the documented fields')
        for f in FIELDS:
            H.check(H.same(e[f], r[f]), 'value under its own name, in file order')
    H.cover('end')


def agency(H):
    """The text of the agency is that between the commas, or the quotes."""
    H.set_now(2024)
    texts = [('ISC', 'ISC'), ('', ''), (' GCMT ', ' GCMT '), ('"A,B"', 'A,B'), ('"say ""hi"""', 'say "hi"'), ('007', '007'), ("O'Neill", "O'Neill"),
             ('a;b', 'a;b'), ('#1', '#1'), ('isc', 'isc'), ('nan', 'nan'), ('a\tb', 'a\tb'), ('back\\slash', 'back\\slash')]
    row = dict(VALID, Mw=H.real('Mw', -5, 11), second=H.real('second', 0, 59))
    cell_text, want = H.choice('agency', texts)
    entries, x = read_catalogue(H, catalogue_text([VALID, line(dict(row, Agency='@@')).replace('@@', cell_text), VALID]))
    H.check(x is None and len(entries) == 3, 'valid rows are read')
    if x is None and len(entries) == 3:
        H.check(entries[1]['Agency'] == want, 'the text of the agency')
        H.check(H.And(*[H.same(entries[1][f], row[f]) for f in FIELDS if f != 'Agency']), 'each value under its column name')
        H.check(all(entries[i]['Agency'] == VALID['Agency'] for i in (0, 2)), 'other rows have their own')
    H.cover('end')


def errors(H):
    """The first bad row stops the reading and is located."""
    H.set_now(2024)
    m = H.mod('mtoolkit.eqcatalog')
    n = H.p['n']
    fs = [H.choice('f%d' % i, H.p['fields']) for i in range(2)]
    H.assume(fs[0] != fs[1])
    rows, bads = [], []
    for i in range(n):
        row = dict(VALID, eventID=i + 1)
        bad = {}
        for f in fs:
            if H.p['words'] and H.choice('word_%s%d' % (f, i), [False, True]):
                row[f] = 'abc'
                bad[f] = True
            else:
                row[f] = sym_field(H, f, str(i))
        for f in fs:
            if f not in bad:
                if f == 'day' and isinstance(row['month'], str):
                    bad[f] = H.Not(H.And(row[f] >= 1, row[f] <= 31))
                else:
                    bad[f] = H.Not(in_range(H, f, row[f], row, 2024))
        rows.append(row)
        bads.append(bad)
    got = []
    p = H.write('cat.csv', catalogue_text(rows))

    def go():
        with open(p) as f:
            for e in m.EqEntryReader(f).read():
                got.append(e['eventID'])
    _, x = H.call(go)
    k = len(got)
    H.check(H.And(*[H.eqv(g, i + 1) if 'eventID' not in fs else True for i, g in enumerate(got)]), 'rows in file order')
    for i in range(k):
        H.check(H.Not(H.Or(*bads[i].values())), 'rows before the reported one are valid')
    if k == n:
        H.check(x is None, 'no error when every row is valid')
        H.cover('valid')
        return
    H.check(isinstance(x, m.EqEntryValidationError), 'the validation error')
    if not isinstance(x, m.EqEntryValidationError):
        return
    H.check(H.Or(*bads[k].values()), 'the row after the entries given is invalid')
    msg = x.args[-1]
    name = x.args[0]
    H.check(name in fs and re.search(r'\b%s\b' % name, msg) is not None, 'the error names a field')
    if name in bads[k]:
        H.check(bads[k][name], 'the field named is invalid')
    H.check(last_int(msg) == k + 2, 'line number, the header being line 1')
    H.cover('error in row %d' % k)


def scenarios(tier):
    t = tier != 'quick'
    out = [scen('headers', headers, p={'all': t}, covers=['accepted', 'refused'],
                bounds='one column dropped, renamed, repeated, moved, in any place; blanks around the names')]
    G = [['eventID', 'month', 'Mw', 'depth'], ['day', 'latitude', 'sigmaMw', 'ML'], ['year', 'longitude', 'second', 'SemiMajor90'],
         ['Identifier', 'hour', 'minute', 'depthError', 'mb']]
    n = 4 if t else 3
    for i, g in enumerate(G):
        out.append(scen('order-%d' % i, order, p={'n': n, 'sym': g}, covers=['end'],
                        bounds='%d rows, any valid values in %s' % (n, ', '.join(g))))
    out.append(scen('agency', agency, covers=['end'], bounds='13 agency texts with blanks, quotes, commas and signs; two cells any valid values'))
    m = 1500 if t else 300
    out.append(scen('many', order, p={'n': m, 'places': (0, m // 2, m - 1), 'sym': ['eventID', 'year', 'latitude', 'Mw']}, covers=['end'],
                    bounds='%d rows, three of them with any valid values in four cells' % m))
    F = [f for f in COMPULSORY if f != 'Mw'] if t else ['eventID', 'month', 'day', 'latitude', 'depth']
    out += [scen('errors', errors, p={'n': n, 'words': False, 'fields': F}, covers=['valid'] + ['error in row %d' % i for i in range(n)],
                 bounds='%d rows, any two of %s any numbers' % (n, ', '.join(F))),
            scen('error-words', errors, p={'n': 2, 'words': True, 'fields': F if t else ['month', 'hour', 'depth']},
                 covers=['valid', 'error in row 0', 'error in row 1'],
                 bounds='2 rows, cells unconvertible or any number')]
    return out
