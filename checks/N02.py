"""N02: each nrml element is read into, and written from, its own field."""
from lxml import etree
from vp.harness import scen
from vp.domain import *

ASSUMPTIONS = ['one rupture rate model per source with a truncated Gutenberg-Richter distribution; posLists have an even number of values',
               'ids are unique (the schema validator does not check that)',
               'lxml parses, serialises and validates as documented; text <-> number conversion is exact (repr of a double)']
# a well-formed fault and point source, which are not area sources
FAULT = '''<simpleFaultSource gml:id="f%d"><gml:name>Fault</gml:name><tectonicRegion>Volcanic</tectonicRegion><rake>1.0</rake>
<truncatedGutenbergRichter type="ML"><aValueCumulative>5.0</aValueCumulative><bValue>0.8</bValue><minMagnitude>5.0</minMagnitude>
<maxMagnitude>7.0</maxMagnitude></truncatedGutenbergRichter>
<simpleFaultGeometry gml:id="g%d"><faultTrace><gml:LineString srsName="urn:ogc:def:crs:EPSG::4326"><gml:posList>-124.7 40.3 5.0 -124.5 38.9 5.0</gml:posList></gml:LineString></faultTrace>
<dip>50.0</dip><upperSeismogenicDepth>0.0</upperSeismogenicDepth><lowerSeismogenicDepth>13000.0</lowerSeismogenicDepth></simpleFaultGeometry></simpleFaultSource>
'''
HOLE = ('<gml:interior><gml:LinearRing srsName="urn:ogc:def:crs:EPSG::4326"><gml:posList>9 9 9.5 9 9.5 9.5 9 9</gml:posList>'
        '</gml:LinearRing></gml:interior>')


TEXTS = [dict(), dict(name=None, srs=None), dict(name=NAMES[2], type_tgr=None, type_mag=None),
         dict(name=NAMES[1], srs=SRS[1], region=REGIONS[3], type_tgr='Mw', type_mag='ML')]


def parts(H, i):
    if H.p.get('long'):
        return H.p['counts'][i % len(H.p['counts'])], TEXTS[i % 4]
    return H.choice('counts%d' % i, H.p['counts']), H.choice('texts%d' % i, TEXTS)


def reading(H):
    rd = H.mod('nrml.reader')
    vs, xml = [], []
    ids = H.choice('ids', [('n1', 'sm1'), ('doc_7', 'x-y')])
    if H.p['kind'] == 'mixed':
        xml.append(FAULT % (1, 1))
    for i in range(H.p['n']):
        (nv, nm, nd), t = parts(H, i)
        v = source_values(H, 'src%d' % (7 - i), nv, nm, nd, nrml=ids[0], model=ids[1], **t)
        ex = {}
        if H.p['kind'] == 'layout':
            ex['sep'] = H.choice('sep%d' % i, ['\n   ', '\t', '  '])
        if H.p['kind'] == 'hole':
            ex['hole'] = HOLE
        vs.append(v)
        xml.append(source_xml(v, extra=ex))
        if H.p['kind'] == 'mixed':
            xml.append(FAULT % (2 + i, 2 + i))
    text = model_xml(xml, *ids, config='' if H.p['kind'] == 'layout' else '<config/>')
    p = H.write('in.xml', text)
    H.check(etree.XMLSchema(etree.parse(schema_path(H))).validate(etree.parse(p)), 'the document is valid for the schema')
    r, x = H.call(rd.NRMLReader, p, schema_path(H))
    H.check(x is None, 'the reader is created')
    if x is not None:
        return
    for again in range(2 if H.p['kind'] == 'mixed' else 1):
        got, x = H.call(lambda: list(r.read()))
        H.check(x is None, 'the document is read')
        if x is not None:
            return
        H.check(len(got) == len(vs), 'one source per areaSource element')
        for g, v in zip(got, vs):
            same_source(H, source_dict(g), v, 'element read')
    H.cover('read')


def writing(H):
    wr = H.mod('nrml.writer')
    ids = H.choice('ids', [('n1', 'sm1'), ('doc_7', 'x-y')])
    vs = []
    for i in range(H.p['n']):
        (nv, nm, nd), t = parts(H, i)
        vs.append(source_values(H, 'src%d' % (7 - i), nv, nm, nd, nrml=ids[0], model=ids[1], **t))
    p = os.path.join(H.tmp(), 'out.xml')
    objs = [source_object(H, v) for v in vs]
    if H.choice('tuple', [False, True]):
        objs = tuple(objs)
    _, x = H.call(lambda: wr.AreaSourceWriter(p).serialize(objs))
    H.check(x is None, 'the model is written')
    if x is not None:
        return
    got = parse_model(H, etree.parse(p))
    H.check(len(got) == len(vs), 'one areaSource element per source')
    for g, v in zip(got, vs):
        same_source(H, g, v, 'element written')
    H.cover('written')


# what is wrong with the document: elements dropped, contents replaced
BAD = [dict(drop=('id',)), dict(drop=('region',)), dict(drop=('boundary',)), dict(drop=('rate',)), dict(drop=('dist',)), dict(drop=('hypo',)),
       dict(drop=('tgr',)), dict(drop=('strike',)), dict(drop=('dip',)), dict(drop=('rake',)), dict(drop=('a',)), dict(drop=('b',)),
       dict(drop=('min',)), dict(drop=('max',)), dict(drop=('magnitudes',)), dict(drop=('depths',)), dict(drop=('ring',)), dict(drop=('pos',)),
       dict(doc=('nrml-id',)), dict(doc=('model-id',)),
       dict(extra={'strike': '360.5'}), dict(extra={'strike': '-0.5'}), dict(extra={'dip': '90.25'}), dict(extra={'dip': '-1'}),
       dict(extra={'rake': '180.5'}), dict(extra={'rake': '-181'}), dict(extra={'b': '-0.25'}), dict(extra={'hypo': '-1.0'}),
       dict(extra={'depths': '10.0 -1.0'}), dict(extra={'a': 'high'}), dict(extra={'min': ''}), dict(extra={'max': '7,0'}),
       dict(extra={'magnitudes': '5.0,6.0'}), dict(extra={'pos': '1.0,2.0 3.0,4.0'}), dict(extra={'region': 'Shallow'}), dict(extra={'region': ''}),
       dict(extra={'strike': ''}), dict(extra={'hypo': '5 km'}), dict(extra={'swap': ((1, 2),)}), dict(extra={'swap': ((2, 3),)}),
       dict(extra={'swap': ((3, 4),)}), dict(extra={'swap': ((4, 5),)}), dict(extra={'swap': ((0, 1),)}),
       dict(texts={'type_tgr': 'Ms'}), dict(texts={'type_mag': 'mw'}), dict(texts={'id': '1st'}), dict(texts={'id': 'two words'}),
       dict(more='<unknown/>'), dict(more='<hypocentralDepth>1.0</hypocentralDepth>'), dict(text=''), dict(text='not xml'),
       dict(cut=1), dict(cut=30), dict(ns=True)]


def invalid(H):
    rd = H.mod('nrml.reader')
    good = H.choice('other source', ['none', 'before', 'after'])
    b = H.choice('defect', BAD)
    v = source_values(H, 'src1', 3, 2, 2, **b.get('texts', {}))
    w = source_values(H, 'src2', 3, 1, 1)
    x1 = source_xml(v, b.get('drop', ()), b.get('extra', {}))
    if 'more' in b:
        x1 = x1.replace('</areaSource>', b['more'] + '</areaSource>')
    x2 = source_xml(w)
    text = model_xml({'none': [x1], 'before': [x2, x1], 'after': [x1, x2]}[good], drop=b.get('doc', ()))
    if b.get('ns'):
        text = text.replace('nrml/0.3"', 'nrml/0.2"')
    if 'cut' in b:
        text = text.rstrip()[:-b['cut']]
    p = H.write('in.xml', b.get('text', text))
    _, x = H.call(lambda: list(rd.NRMLReader(p, schema_path(H)).read()))
    H.check(x is not None, 'an invalid document is refused')
    H.cover('refused')


def scenarios(tier):
    C1 = [(1, 1, 1), (3, 2, 1), (4, 1, 3), (5, 3, 2)]
    m, u = (3 if tier == 'thorough' else 2), {'unit_tokens': True}
    out = []
    for n in range(1, m + 1):
        out.append(scen('read-%d' % n, reading, p=dict(u, n=n, kind='plain', counts=C1 if n < 3 else C1[1:3]), covers=['read'],
                        bounds='%d area sources, 1-5 vertices, 1-3 magnitudes and depths, texts present or missing' % n))
        out.append(scen('write-%d' % n, writing, p=dict(u, n=n, counts=C1 if n < 3 else C1[1:3]), covers=['written'],
                        bounds='%d area sources, 1-5 vertices, 1-3 magnitudes and depths, texts present or missing' % n))
    for k, b in (('mixed', 'fault sources before and after the area sources; document read twice'),
                 ('layout', 'lists separated by line breaks, tabs and spaces; no config element'), ('hole', 'a polygon with a hole')):
        out.append(scen('read-' + k, reading, p=dict(u, n=2 if k == 'mixed' else 1, kind=k, counts=C1[:2]), covers=['read'], bounds=b))
    k, L = (40 if tier == 'thorough' else 12), [(3, 2, 2), (40, 1, 1), (4, 12, 25)]
    for nm, b, cov in (('read-long', reading, 'read'), ('write-long', writing, 'written')):
        out.append(scen(nm, b, p=dict(u, n=k, kind='plain', counts=L, long=True), covers=[cov], bounds='%d area sources of up to 40 vertices, 12 magnitudes and 25 depths' % k))
    out.append(scen('invalid', invalid, p=u, covers=['refused'], bounds='%d defects of a document, alone or beside a valid source' % len(BAD)))
    return out
