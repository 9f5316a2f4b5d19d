"""N03: sources are equal exactly when all their fields are equal."""
from vp.harness import scen
from vp.domain import *

NUMS = ['a', 'b', 'min', 'max', 'strike', 'dip', 'rake', 'hypo']


def texts(H, k):
    t = {}
    for f in ('nrml', 'model', 'id'):
        t[f] = H.text('%s_%s' % (k, f), ['one', 'two'])
    for f in ('name', 'srs', 'type_tgr', 'type_mag', 'region'):
        t[f] = H.text('%s_%s' % (k, f), ['one', 'two', 'One'])
    return t


def agree(H, v, w):
    cs = [v[k] == w[k] for k in NUMS + ['nrml', 'model', 'id', 'name', 'srs', 'region', 'type_tgr', 'type_mag']]
    for k in ('vertices', 'magnitudes', 'depths'):
        if len(v[k]) != len(w[k]):
            return False
        for a, b in zip(v[k], w[k]):
            cs += [x == y for x, y in zip(a, b)] if k == 'vertices' else [a == b]
    return H.And(*cs)


def pair(H):
    nv, nm, nd = H.choice('counts', [(1, 1, 1), (3, 2, 2), (2, 1, 2), (2, 2, 1), (3, 1, 1), (24, 9, 9)])
    mv, mm, md = H.choice('other counts', [(1, 1, 1), (3, 2, 2), (2, 1, 2), (24, 9, 9)])
    v = source_values(H, 's', nv, nm, nd, **texts(H, 's'))
    w = source_values(H, 't', mv, mm, md, **texts(H, 't'))
    s, t = source_object(H, v), source_object(H, w)
    same = agree(H, v, w)
    e, x = H.call(lambda: bool(s == t))
    f, y = H.call(lambda: bool(s != t))
    H.check(x is None and y is None, 'sources can be compared')
    if x is not None or y is not None:
        return
    H.check(H.Iff(e, same), 'equal exactly when all fields are equal')
    H.check(f is (not e), 'unequal is not equal')
    H.cover('equal' if e else 'different')


def missing(H):
    """Fields that are not set."""
    m = H.mod('mtoolkit.source_model')
    v = source_values(H, 's')
    s, t = source_object(H, v), source_object(H, v)
    F = ['nrml_id', 'source_model_id', 'area_source_id', 'name', 'tectonic_region', 'area_boundary', 'rupture_rate_model',
         'rupture_depth_dist', 'hypocentral_depth']
    a, b = [H.choice(n, F + [None]) for n in ('unset', 'unset in the other')]
    for o, k in ((s, a), (t, b)):
        if k:
            setattr(o, k, None)
    H.check(bool(s == t) is (a == b), 'a field not set differs from one that is set')
    H.check(bool(s != t) is (a != b), 'unequal is not equal')
    H.check(bool(m.AreaSource() == m.AreaSource()), 'empty sources are equal')
    H.cover('equal' if a == b else 'different')


def default(H):
    m = H.mod('mtoolkit.source_model')
    a, b = m.default_area_source(), m.default_area_source()
    want = source_dict(b)
    H.check(bool(a == b) and not bool(a != b), 'default sources are equal')
    k = H.choice('field', ['nrml_id', 'source_model_id', 'area_source_id', 'name', 'tectonic_region', 'hypocentral_depth', 'vertices', 'magnitudes',
                           'depths', 'model'])
    x = H.real('x', -1000, 10000)
    H.assume(H.And(x != 0, x != 5000))
    if k == 'vertices':
        a.area_boundary.pos_list.append(m.POINT(x, x))
    elif k == 'magnitudes':
        a.rupture_depth_dist.magnitude.values.append(x)
    elif k == 'depths':
        a.rupture_depth_dist.depth.append(x)
    elif k == 'model':
        t = a.rupture_rate_model.truncated_gutenberg_richter._replace(a_value=x)
        a.rupture_rate_model = a.rupture_rate_model._replace(truncated_gutenberg_richter=t)
    else:
        setattr(a, k, x if k == 'hypocentral_depth' else 'other')
    same_source(H, source_dict(b), want, 'another default source is unaffected')
    same_source(H, source_dict(m.default_area_source()), want, 'a later default source is unaffected')
    H.check(not bool(a == b), 'the changed source differs')
    H.cover('independent')


def scenarios(tier):
    return [scen('pairs', pair, covers=['equal', 'different'],
                 bounds='two sources with arbitrary numbers and texts, up to 24 vertices, 9 magnitudes and depths each'),
            scen('missing', missing, covers=['equal', 'different'], bounds='any one field of each source not set'),
            scen('default', default, covers=['independent'], bounds='any field of a default source changed')]
