"""G03: a tectonic region is accepted exactly when values and weights are valid."""
from vp.harness import scen

ASSUMPTIONS = ['sums of weights between 1e-12 and 1e-6 from one are left open (rounding)']
MODELS = ['WC1994', 'Peer', 'wc1994', 'WC1994 ', '', 'Wells']
BASE = {'msr': ('model', ['WC1994', 'Peer'], [0.5, 0.5]), 'smod': ('value', [30.0], [1.0]),
        'dlr': ('value', [1.25e-5, 1.0e-4], [0.25, 0.75])}
WHICH = ['msr', 'smod', 'dlr']


def group(H, name, nv, nw, models=None):
    """A list of nv values and nw weights, and the condition for it to be valid."""
    key = BASE[name][0]
    if key == 'model':
        vals = list(models)
        ok = all(m in ('WC1994', 'Peer') for m in vals)
    else:
        vals = H.reals(name + 'v', nv, -100, 100) if nv < 8 else [H.real(name + 'v', -100, 100) if i == nv * 2 // 3 else H.num(0.5 + i) for i in range(nv)]
        ok = H.And(*[v > 0 for v in vals])
    ws = H.reals(name + 'w', nw, -2, 2) if nw < 8 else [H.real(name + 'w', -2, 2) if i == nw * 3 // 4 else H.num(0.015625) for i in range(nw)]
    off = H.abs(H.sum(ws) - 1) if ws else H.num(1.0)
    H.assume(H.Or(off <= 1e-12, off > 1e-6))
    return {key: vals, 'weight': ws}, H.And(nv == nw, ok, off <= 1e-12)


def base(name):
    k, v, w = BASE[name]
    return {k: list(v), 'weight': list(w)}


def one(H):
    """One of the three lists arbitrary, the others valid."""
    TR = H.mod('mtoolkit.geo.tectonic_region').TectonicRegionBuilder
    name = H.p['list']
    nv = H.choice('values', list(range(H.p['n'] + 1)))
    nw = H.choice('weights', list(range(H.p['n'] + 1)))
    models = [H.choice('model%d' % i, MODELS) for i in range(nv)] if name == 'msr' else None
    g, ok = group(H, name, nv, nw, models)
    args = dict((w, g if w == name else base(w)) for w in WHICH)
    verdict(H, TR, args, ok)


def verdict(H, TR, args, ok):
    r, x = H.call(TR.create_new_tect_region, '007', args['msr'], args['smod'], args['dlr'])
    if x is None:
        H.check(ok, 'an invalid region is refused')
        if args['smod']['value']:
            H.check(H.eqv(r.shear_mod_first_value, args['smod']['value'][0]), 'first shear modulus')
        if args['dlr']['value']:
            H.check(H.eqv(r.disp_length_ratio_first_value, args['dlr']['value'][0]), 'first displacement length ratio')
    else:
        H.check(H.Not(ok), 'a valid region is accepted')
        H.check(isinstance(x, ValueError), 'refused with a ValueError')
    H.cover('accepted' if x is None else 'refused')


def three(H):
    """All three lists arbitrary, as many weights as values."""
    TR = H.mod('mtoolkit.geo.tectonic_region').TectonicRegionBuilder
    args, oks = {}, []
    for w, n in zip(WHICH, H.p['n']):
        args[w], ok = group(H, w, n, n, ['Peer'] * n)
        oks.append(ok)
    verdict(H, TR, args, H.And(*oks))


def special(H):
    """One number which is not finite, or the smallest one, anywhere among valid ones."""
    TR = H.mod('mtoolkit.geo.tectonic_region').TectonicRegionBuilder
    v = float(H.choice('special', ['nan', 'inf', '-inf', '5e-324', '-0.0', '0.0', '-5e-324']))
    name = H.choice('list', WHICH)
    key = BASE[name][0]
    where = H.choice('where', ['weight'] + (['value'] if key == 'value' else []))
    n = H.choice('entries', [1, 2, 3])
    i = H.choice('index', list(range(n)))
    g = {key: ['Peer'] * n if key == 'model' else H.reals('v', n, 0.01, 100), 'weight': [[1.0], [0.25, 0.75], [0.25, 0.5, 0.25]][n - 1]}
    if where == 'value' or H.choice('kind', ['replaced', 'added']) == 'replaced':
        g[where][i] = v
    else:
        # an entry without weight
        g['weight'].insert(i, v)
        g[key].insert(i, 'Peer' if key == 'model' else 2.5)
    ok = v > 0 if where == 'value' else (len(g['weight']) > n and abs(v) < 1)
    verdict(H, TR, dict((w, g if w == name else base(w)) for w in WHICH), H.And(ok))


NAMES = ['ACTIVE_SHALLOW_CRUST', 'SUBDUCTION_INTERFACE', 'SUBDUCTION_INTRASLAB', 'STABLE_CONTINENTAL', 'VOLCANIC']
DEFAULTS = dict(zip(NAMES, [('001', 30.0, 1.25e-5), ('002', 49.0, 1.25e-5), ('003', 49.0, 1.25e-5), ('004', 29.0, 1.0e-4), ('005', 29.0, 1.25e-5)]))


def given(H, name, n):
    g, ok = group(H, name, n, n, ['Peer', 'WC1994', 'Peer'][:n])
    H.assume(ok)
    return g


def defaults(H):
    m = H.mod('mtoolkit.geo.tectonic_region')
    TR = m.TectonicRegionBuilder
    name = H.choice('region', NAMES)
    rid, smod, dlr = DEFAULTS[name]
    over = H.choice('overridden', [()] + [(w,) for w in WHICH] + [('msr', 'smod'), ('msr', 'dlr'), ('smod', 'dlr'), tuple(WHICH)])
    std = {'msr': {'model': ['WC1994'], 'weight': [1.0]}, 'smod': {'value': [smod], 'weight': [1.0]}, 'dlr': {'value': [dlr], 'weight': [1.0]}}
    kw = dict((w, given(H, w, H.p['n'])) for w in over)
    r, x = H.call(TR.create_tect_region_by_name, getattr(TR, name), **kw)
    H.check(x is None, 'accepted')
    if x is not None:
        return
    want = dict(std, **kw)
    H.check(H.eqv(r.shear_mod_first_value, want['smod']['value'][0]), 'shear modulus: given or default')
    H.check(H.eqv(r.disp_length_ratio_first_value, want['dlr']['value'][0]), 'displacement length ratio: given or default')
    w = TR.create_new_tect_region(rid, want['msr'], want['smod'], want['dlr'])
    H.check(r == w and not (r != w), 'the region with the documented values')
    # building one region leaves the defaults of the next alone
    for n in NAMES:
        d = TR.create_tect_region_by_name(getattr(TR, n))
        i, s, l = DEFAULTS[n]
        e = TR.create_new_tect_region(i, {'model': ['WC1994'], 'weight': [1.0]}, {'value': [s], 'weight': [1.0]}, {'value': [l], 'weight': [1.0]})
        H.check(d == e, 'defaults stay as documented')
    H.cover('end')


def bad_override(H):
    TR = H.mod('mtoolkit.geo.tectonic_region').TectonicRegionBuilder
    name = H.choice('region', NAMES)
    w = H.choice('overridden', WHICH)
    g, ok = group(H, w, 2, 2, ['Peer', H.choice('model', ['WC1994', 'WC1995'])])
    r, x = H.call(TR.create_tect_region_by_name, getattr(TR, name), **{w: g})
    if x is None:
        H.check(ok, 'an invalid override is refused')
    else:
        H.check(H.Not(ok), 'a valid override is accepted')
        H.check(isinstance(x, ValueError), 'refused with a ValueError')
    H.cover('accepted' if x is None else 'refused')


def unknown(H):
    TR = H.mod('mtoolkit.geo.tectonic_region').TectonicRegionBuilder
    n = H.choice('name', ['Volcano', '', 'volcanic', 'ActiveShallowCrust', '001', 'VOLCANIC', 'Stable  Continental', None, 4])
    r, x = H.call(TR.create_tect_region_by_name, n)
    H.check(isinstance(x, ValueError), 'an unknown name is refused with a ValueError')
    H.cover('end')


def equality(H):
    """Regions are equal exactly when identifiers and lists are."""
    TR = H.mod('mtoolkit.geo.tectonic_region').TectonicRegionBuilder
    gs = {}
    for s in 'ab':
        for w in ('smod', 'dlr'):
            v = H.reals('%s%s' % (s, w), 2, 0.01, 100)
            x = H.choice('w' + s + w, [0.25, 0.5])
            gs[s, w] = {'value': v, 'weight': [x, 1 - x]}
        gs[s, 'msr'] = {'model': H.choice('m' + s, [['Peer'], ['WC1994']]), 'weight': [1.0]}
        gs[s, 'id'] = H.choice('id' + s, ['001', '006'])
    a, b = [TR.create_new_tect_region(gs[s, 'id'], gs[s, 'msr'], gs[s, 'smod'], gs[s, 'dlr']) for s in 'ab']
    want = H.And(*[H.same(gs['a', k], gs['b', k]) for k in ('id', 'msr', 'smod', 'dlr')])
    e, ne = bool(a == b), bool(a != b)
    H.check(H.Iff(e, want), 'equal exactly when all values are')
    H.check(e != ne, 'unequal is the negation of equal')
    H.cover('equal' if e else 'unequal')


def scenarios(tier):
    t = tier != 'quick'
    n = 3 if t else 2
    b = 'the %s list with up to %d entries and up to %d weights, any values in +-100 and weights in +-2, the other lists valid'
    out = [scen('list-' + w, one, p={'list': w, 'n': (3 if w != 'msr' or t else 2)}, covers=['accepted', 'refused'], bounds=b % (w, n, n)) for w in WHICH]
    out += [scen('three-%d%d%d' % ns, three, p={'n': ns}, covers=['accepted', 'refused'],
                 bounds='lists of %d, %d and %d, any values and weights' % ns) for ns in ([(1, 1, 1), (2, 1, 3)] if not t else [(1, 1, 1), (2, 1, 3), (3, 3, 3), (1, 5, 4)])]
    k = 16 if not t else 40
    out += [scen('three-many', three, p={'n': (k, k + 3, k + 5)}, covers=['accepted', 'refused'],
                 bounds='lists of %d, %d and %d, one value and one weight of each any' % (k, k + 3, k + 5))]
    out += [scen('special', special, covers=['accepted', 'refused'], bounds='one value or weight of nan, +-inf, zero or the smallest double at any place of lists of up to 4, the other values any')]
    out += [scen('defaults-%d' % k, defaults, p={'n': k}, covers=['end'], bounds='5 regions, any subset of lists given (length %d, any valid values)' % k)
            for k in ((1, 2) if not t else (1, 2, 3))]
    out += [scen('bad-override', bad_override, covers=['accepted', 'refused'], bounds='5 regions, one list of 2 given, any values and weights'),
            scen('unknown', unknown, covers=['end'], bounds='9 names'),
            scen('equality', equality, covers=['equal', 'unequal'], bounds='two regions with lists of 2, any values')]
    return out
