"""C01: acceptance of catalogue rows."""
from vp.harness import scen
from vp.domain import *

ASSUMPTIONS = ['rows have at most 25 cells and are not blank', 'Mw and depth are finite']
BAD = {'word': 'abc', 'empty': '', 'blanks': '   ', 'two numbers': '1 2', 'comma decimal': '"1,5"', 'hex': '0x1F'}


def judge(H, row, text, ok, label=''):
    """Reads one line of the given text: accepted exactly when ok."""
    m = H.mod('mtoolkit.eqcatalog')
    entries, x = read_catalogue(H, catalogue_text([text]))
    if x is None:
        H.check(ok, 'only valid rows are accepted')
        H.check(len(entries) == 1, 'one entry for the row')
        for f in COMPULSORY:
            v = entries[0][f]
            if isinstance(v, str) or v is None:
                H.fail('compulsory value unchanged')
                return
            H.check(H.eqv(v, row[f]), 'compulsory value unchanged')
            if f in INTS:
                H.check(H.is_int(v), 'integer fields hold integers')
        H.cover('accepted' + label)
    else:
        H.check(isinstance(x, m.EqEntryValidationError), 'refused with the validation error')
        H.check(H.Not(ok), 'valid rows are not refused')
        H.cover('refused' + label)


def valid(H, row, now, fields=COMPULSORY):
    return H.And(*[in_range(H, f, row[f], row, now) for f in fields])


def joint(H):
    """All compulsory fields any numbers at once."""
    now = H.int('now', 2012, 2200)
    H.set_now(now)
    row = dict((f, sym_field(H, f) if f in COMPULSORY else VALID[f]) for f in FIELDS)
    judge(H, row, line(row), valid(H, row, now))


def one_bad(H):
    """One cell unconvertible, the others any numbers near their ranges."""
    now = 2024
    H.set_now(now)
    f = H.choice('field', COMPULSORY)
    kind = H.choice('kind', sorted(BAD) + ['decimal', 'padded', 'signed', 'truncated', 'nan', 'inf', '-inf'])
    sym = H.p['sym']
    i = COMPULSORY.index(f)
    near = [COMPULSORY[(i + k) % len(COMPULSORY)] for k in range(1, sym + 1)]
    row = dict((g, sym_field(H, g) if g in near or g == f else VALID[g]) for g in FIELDS)
    if kind == 'padded':
        judge(H, row, line(dict(row, **{f: '  ' + str(row[f]) + ' '})), valid(H, row, now), ' padded')
    elif kind == 'signed':
        H.assume(row[f] >= 0)
        judge(H, row, line(dict(row, **{f: '+' + str(row[f])})) if not H.symbolic else line(row), valid(H, row, now))
    elif kind == 'truncated':
        H.assume(f != FIELDS[0])
        judge(H, row, line(row, FIELDS.index(f)), False, ' truncated')
    elif kind in ('nan', 'inf', '-inf'):
        # not in any range; integers cannot be these
        H.assume(f not in ('Mw', 'depth') or f == 'depth' and kind != 'inf')
        judge(H, row, line(dict(row, **{f: kind})), False, ' not finite')
    elif kind == 'decimal':
        if f in INTS:
            judge(H, row, line(dict(row, **{f: '3.0'})), False, ' decimal')
        else:
            judge(H, row, line(row), valid(H, row, now))
    else:
        judge(H, row, line(dict(row, **{f: BAD[kind]})).replace('"""1,5"""', '"1,5"'), False, ' bad cell')


def optional_irrelevant(H):
    """Nothing in the optional cells decides whether the row is accepted."""
    H.set_now(2024)
    g = H.choice('optional', OPTIONAL + ['Agency'])
    k = H.choice('cell', ['number', 'word', 'empty'])
    f = H.choice('field', COMPULSORY if H.p['all'] else ['day', 'depth', 'Mw'])
    row = dict((h, sym_field(H, h) if h == f or h == g and k == 'number' and g != 'Agency' else VALID[h]) for h in FIELDS)
    if k != 'number':
        row[g] = {'word': 'x', 'empty': ''}[k]
    judge(H, row, line(row), valid(H, row, 2024))


def scenarios(tier):
    t = tier != 'quick'
    return [scen('joint', joint, covers=['accepted', 'refused'], witnesses=8,
                 bounds='all 11 compulsory cells any number (integers unbounded), present year 2012..2200'),
            scen('one-bad', one_bad, p={'sym': 3 if t else 1},
                 covers=['refused bad cell', 'refused truncated', 'refused decimal', 'accepted padded', 'refused not finite'],
                 bounds='each compulsory cell unconvertible, not finite, padded or cut off, %d others any number' % (3 if t else 1)),
            scen('optional', optional_irrelevant, p={'all': t}, covers=['accepted', 'refused'],
                 bounds='each optional cell any number, a word or empty, one compulsory cell any number')]
