"""C04: writing a catalogue and reading it back."""
import os
from vp.harness import scen
from vp.domain import *

ASSUMPTIONS = ['text cells hold no line breaks', 'numbers are finite']
AGENCY = ['ISC', '', ' GCMT ', 'A,B', 'say "hi"', '007', 'Univ. of X']


def row_text(H, i, pattern, sym):
    """A row with some optional cells blank."""
    row = valid_row(H, str(i), sym)
    for f in pattern:
        row[f] = ''
    return row


def patterns():
    out = [()] + [tuple(OPTIONAL)] + [(f,) for f in OPTIONAL] + [tuple(g for g in OPTIONAL if g != f) for f in OPTIONAL]
    return out + [('Ms', 'sigmaMs', 'ML'), ('second', 'ErrorStrike', 'mb')]


def roundtrip(H):
    H.set_now(2024)
    m = H.mod('mtoolkit.eqcatalog')
    n = H.p['n']
    rows = []
    which = H.choice('row', list(range(n)))
    for i in range(n):
        pat = H.choice('pattern', patterns()) if i == which else patterns()[(3 * i) % 7]
        rows.append(row_text(H, i, pat, H.p['sym']))
    if H.p.get('agency'):
        rows[which]['Agency'] = H.choice('agency', AGENCY)
    entries, x = read_catalogue(H, catalogue_text(rows))
    H.check(x is None, 'the rows are valid')
    if x is not None:
        return
    keep = [dict(e) for e in entries]
    out = os.path.join(H.tmp(), 'out.csv')
    if H.p.get('stale'):
        H.write('out.csv', catalogue_text([VALID] * 7))

    def go():
        m.EqEntryWriter(out).write_rows(entries)
    _, x = H.call(go)
    H.check(x is None, 'written')
    if x is not None:
        return
    again, x = read_catalogue(H, open(out).read(), 'again.csv')
    H.check(x is None, 'the written catalogue is valid')
    if x is not None:
        return
    H.check(len(again) == n, 'same number of entries')
    for a, b in zip(again, keep):
        for f in FIELDS:
            H.check(H.same(a[f], b[f]), 'same values in the same order')
    for a, b in zip(entries, keep):
        H.check(H.And(*[H.same(a[f], b[f]) for f in FIELDS]), 'writing leaves the entries alone')
    H.cover('end')


def scenarios(tier):
    t = tier != 'quick'
    every = [f for f in FIELDS if f != 'Agency']
    out = [scen('all-fields', roundtrip, p={'n': 1, 'sym': every}, covers=['end'],
                bounds='one row, any valid value in every cell, optional cells blank: none, all, each alone, all but each'),
           scen('rows', roundtrip, p={'n': 3, 'sym': ['eventID', 'longitude', 'depth', 'Mw', 'sigmaMw', 'mb'], 'stale': True},
                covers=['end'], bounds='3 rows over an older file, any valid values in six cells'),
           scen('agency', roundtrip, p={'n': 2, 'sym': ['year', 'second'], 'agency': True}, covers=['end'],
                bounds='2 rows, agency texts with blanks, commas and quotes')]
    if t:
        out.append(scen('many', roundtrip, p={'n': 4, 'sym': every}, covers=['end'], bounds='4 rows, any values in every cell'))
    return out
