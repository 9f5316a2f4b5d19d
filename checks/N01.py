"""N01: source models survive writing and reading."""
from lxml import etree
from vp.harness import scen
from vp.domain import *

ASSUMPTIONS = ['schema-valid values: numbers in the ranges of the schema, ids that are XML names and differ, names not empty',
               'the sources of one model share the ids of the document and of the model',
               'lxml parses, serialises and validates as documented; text <-> number conversion is exact (repr of a double)']
COUNTS = [(1, 1, 1), (2, 1, 2), (3, 2, 1), (4, 3, 3), (5, 1, 3)]


def variants(k):
    """Optional parts present or missing."""
    return [dict(name=None), dict(srs=None), dict(type_tgr=None), dict(type_mag=None), dict(type_tgr='Mw', type_mag='ML', srs=SRS[1]),
            dict(name=None, srs=None, type_tgr=None, type_mag=None), dict(name=NAMES[1], region=REGIONS[1]),
            dict(name=NAMES[2], region=REGIONS[2]), dict(region=REGIONS[3], type_tgr='Mw'), dict(region=REGIONS[4], type_mag='ML')][k]


def roundtrip(H):
    wr, rd = H.mod('nrml.writer'), H.mod('nrml.reader')
    n = H.p['n']
    nrml, model = H.choice('ids', [('n1', 'sm1'), ('a', 'b_2')])
    vs = []
    for i in range(n):
        t = dict(nrml=nrml, model=model)
        if H.p['vary'] == 'long':
            nv, nm, nd = [(3, 2, 2), (40, 1, 1), (4, 12, 25)][i % 3]
            t.update(variants(i % 10))
        elif H.p['vary'] == 'counts':
            nv, nm, nd = H.choice('counts%d' % i, COUNTS)
        else:
            nv, nm, nd = 3, 2, 2
            t.update(variants(H.choice('variant%d' % i, list(range(10)))))
        vs.append(source_values(H, 'src%d' % (n - i), nv, nm, nd, **t))
    objs = [source_object(H, v) for v in vs]
    before = [source_dict(o) for o in objs]
    old = H.choice('file', ['new', 'longer file there', 'written twice'])
    p = os.path.join(H.tmp(), 'out.xml')
    if old == 'longer file there':
        H.write('out.xml', 'x' * 20000)
    w, x = H.call(wr.AreaSourceWriter, p)
    H.check(x is None, 'the writer is created')
    if x is not None:
        return
    for _ in range(2 if old == 'written twice' else 1):
        _, x = H.call(w.serialize, objs)
    H.check(x is None, 'the model is written')
    if x is not None:
        return
    for o, b in zip(objs, before):
        same_source(H, source_dict(o), b, 'writing leaves the sources unchanged')
    doc, x = H.call(etree.parse, p)
    H.check(x is None, 'the file is XML')
    if x is not None:
        return
    H.check(etree.XMLSchema(etree.parse(schema_path(H))).validate(doc), 'the file is valid for the schema')
    got, x = H.call(lambda: list(rd.NRMLReader(p, schema_path(H)).read()))
    H.check(x is None, 'the file is read')
    if x is not None:
        return
    H.check(len(got) == n, 'as many sources as written')
    for g, v, o in zip(got, vs, objs):
        same_source(H, source_dict(g), v, 'read as written')
        H.check(g == o, 'the source read equals the original')
        H.check(H.Not(g != o), 'the source read is not unequal to the original')
    H.cover('read back')


def scenarios(tier):
    m = 3 if tier == 'thorough' else 2
    out = []
    for n in range(1, m + 1):
        for vary in ('counts', 'options'):
            out.append(scen('%s-%d' % (vary, n), roundtrip, p={'n': n, 'vary': vary, 'unit_tokens': True}, covers=['read back'],
                            bounds='%d sources; numbers arbitrary in the ranges of the schema; %s; new, existing and rewritten files' % (
                                n, '1-5 vertices, 1-3 magnitudes and depths' if vary == 'counts' else
                                '10 combinations of optional parts and texts per source')))
    k = 40 if tier == 'thorough' else 12
    out.append(scen('long-%d' % k, roundtrip, p={'n': k, 'vary': 'long', 'unit_tokens': True}, covers=['read back'],
                    bounds='%d sources of up to 40 vertices, 12 magnitudes and 25 depths; numbers arbitrary in the ranges of the schema' % k))
    return out
