"""Inputs shared by several checks: catalogue rows, contexts, source models."""
import os
import re

FIELDS = ['eventID', 'Agency', 'Identifier', 'year', 'month', 'day', 'hour', 'minute', 'second', 'timeError',
          'longitude', 'latitude', 'SemiMajor90', 'SemiMinor90', 'ErrorStrike', 'depth', 'depthError', 'Mw',
          'sigmaMw', 'Ms', 'sigmaMs', 'mb', 'sigmamb', 'ML', 'sigmaML']
INTS = ['eventID', 'Identifier', 'year', 'month', 'day', 'hour', 'minute']
COMPULSORY = INTS + ['longitude', 'latitude', 'depth', 'Mw']
OPTIONAL = [f for f in FIELDS if f not in COMPULSORY and f != 'Agency']
NONNEG = ['SemiMajor90', 'SemiMinor90', 'depthError', 'sigmaMw', 'sigmaMs', 'sigmamb', 'sigmaML']
ELLIPSE = ['SemiMajor90', 'SemiMinor90', 'ErrorStrike']
# a valid row: every value differs from every other
VALID = {'eventID': 101, 'Agency': 'ISC', 'Identifier': 202, 'year': 1987, 'month': 3, 'day': 21, 'hour': 14,
         'minute': 35, 'second': 7.25, 'timeError': 0.75, 'longitude': 11.5, 'latitude': 44.25, 'SemiMajor90': 6.5,
         'SemiMinor90': 5.75, 'ErrorStrike': 90.5, 'depth': 10.125, 'depthError': 1.25, 'Mw': 6.25, 'sigmaMw': 0.375,
         'Ms': 6.125, 'sigmaMs': 0.3125, 'mb': 5.875, 'sigmamb': 0.4375, 'ML': 5.625, 'sigmaML': 0.1875}


class Context(object):
    """Bare shared state for jobs."""
    def __init__(self, **k):
        self.__dict__.update(k)


def header():
    return ','.join(FIELDS)


def cell(x):
    s = x if isinstance(x, str) else str(x)
    if any(c in s for c in ',"\n'):
        s = '"%s"' % s.replace('"', '""')
    return s


def line(row, upto=None):
    """Text of a row (a dict of values or texts)."""
    return ','.join(cell(row[f]) for f in FIELDS[:upto])


def catalogue_text(rows, head=None):
    return '\n'.join([header() if head is None else head] + [r if isinstance(r, str) else line(r) for r in rows]) + '\n'


def read_catalogue(H, text, name='cat.csv'):
    """(entries, exception) of reading a catalogue file."""
    m = H.mod('mtoolkit.eqcatalog')
    p = H.write(name, text)

    def go():
        with open(p) as f:
            return m.EqEntryReader(f).read_eq_catalog()
    return H.call(go)


def in_range(H, f, v, row, now):
    """Documented range of a compulsory field."""
    if f in ('eventID', 'Identifier'):
        return v > 0
    if f == 'year':
        return H.And(v >= -10000, v <= now)
    if f == 'month':
        return H.And(v >= 1, v <= 12)
    if f == 'day':
        return H.And(v >= 1, v <= 31, H.Or(row['month'] != 2, v <= 29))
    if f == 'hour':
        return H.And(v >= 0, v <= 23)
    if f == 'minute':
        return H.And(v >= 0, v <= 59)
    if f == 'longitude':
        return H.And(v >= -180, v <= 180)
    if f == 'latitude':
        return H.And(v >= -90, v <= 90)
    if f == 'depth':
        return v > 0
    return True


def sym_field(H, f, tag=''):
    return H.int(f + tag) if f in INTS else H.real(f + tag, -1000000, 1000000)


def valid_field(H, f, tag=''):
    """Symbolic value within the documented range of any field."""
    r = {'eventID': (1, 10 ** 9), 'Identifier': (1, 10 ** 9), 'year': (-10000, 2011), 'month': (1, 12), 'day': (1, 31),
         'hour': (0, 23), 'minute': (0, 59), 'longitude': (-180, 180), 'latitude': (-90, 90), 'second': (0, 59.9999999),
         'ErrorStrike': (0, 360), 'depth': (0.001, 900), 'Mw': (-3, 11)}
    if f in r:
        return (H.int if f in INTS else H.real)(f + tag, *r[f])
    return H.real(f + tag, 0 if f in NONNEG else -50, 1000)


def valid_row(H, tag='', symbolic=FIELDS, **given):
    """A valid row; the named fields symbolic, the rest as in VALID."""
    row = {}
    for f in FIELDS:
        if f in given:
            row[f] = given[f]
        elif f in symbolic and f != 'Agency':
            row[f] = valid_field(H, f, tag)
        else:
            row[f] = VALID[f]
    if not (isinstance(row['day'], int) and isinstance(row['month'], int)):
        H.assume(H.Or(row['month'] != 2, row['day'] <= 29))
    if not any(isinstance(row[f], str) for f in ELLIPSE):
        H.assume(row['SemiMinor90'] <= row['SemiMajor90'])
    return row


def filler(i):
    """A valid row with fixed values, those of row i of a long catalogue; some rows agree in several cells."""
    r = dict(VALID, eventID=1000 + (i * 7) % 41, Identifier=5000 - i, year=1990 - i // 2, month=1 + (i * 5) % 12, day=1 + (i * 11) % 28,
             longitude=-170.5 + 8 * i % 340, latitude=-80.25 + 3.5 * i % 160, depth=1.5 + i, Mw=4.0 + (i * 3) % 25 * 0.125)
    if i % 7 == 3:
        r['second'] = ''
    if i % 5 == 2:
        r.update(SemiMajor90='', SemiMinor90='', ErrorStrike='', Ms='')
    return r


def long_rows(H, n, places, symbolic):
    """n rows, those at the given places with any values in the given cells."""
    return [valid_row(H, str(i), symbolic, **{f: v for f, v in filler(i).items() if f not in symbolic}) if i in places else filler(i)
            for i in range(n)]


def long_events(n, mags, years):
    """n fixed events: (years, magnitudes) from the given lists, the magnitudes falling off."""
    x, ys, ms = 7, [], []
    for i in range(n):
        x = (x * 1103 + 12345) % 65536
        ys.append(years[(x >> 4) % len(years)])
        ms.append(mags[min((x >> 3) % len(mags), (x >> 7) % len(mags))])
    return ys, ms


def last_int(s):
    m = re.findall(r'\d+', s)
    return int(m[-1]) if m else None


# -- source models
REGIONS = ['Active Shallow Crust', 'Stable Shallow Crust', 'Subduction Interface', 'Subduction IntraSlab', 'Volcanic']
SRS = ['urn:ogc:def:crs:EPSG::4326', 'urn:ogc:def:crs:EPSG::32632']
NAMES = ['Quito', 'L\u2019Aquila & <Nord>', ' two  words ']
NRML_NS, GML_NS = 'http://openquake.org/xmlns/nrml/0.3', 'http://www.opengis.net/gml'
RANGES = {'a': (-50, 50), 'b': (0, 10), 'min': (-5, 10), 'max': (-5, 10), 'strike': (0, 360), 'dip': (0, 90),
          'rake': (-180, 180), 'hypo': (0, 800000)}


def source_values(H, key, nv=4, nm=1, nd=1, **texts):
    """A schema-valid area source as a plain dict: arbitrary numbers, given texts."""
    v = {'nrml': 'n1', 'model': 'sm1', 'id': key, 'name': 'Quito', 'region': REGIONS[0], 'srs': SRS[0], 'type_tgr': 'ML', 'type_mag': 'Mw'}
    v.update(texts)
    for k, (lo, hi) in RANGES.items():
        v[k] = H.real('%s_%s' % (key, k), lo, hi)
    v['vertices'] = [(H.real('%s_lon%d' % (key, i), -180, 180), H.real('%s_lat%d' % (key, i), -90, 90)) for i in range(nv)]
    v['magnitudes'] = H.reals(key + '_m', nm, -5, 10)
    v['depths'] = H.reals(key + '_d', nd, 0, 800000)
    return v


def source_object(H, v):
    """The AreaSource of source_values."""
    m = H.mod('mtoolkit.source_model')
    s = m.AreaSource()
    s.nrml_id, s.source_model_id, s.area_source_id = v['nrml'], v['model'], v['id']
    s.name, s.tectonic_region = v['name'], v['region']
    s.area_boundary = m.AREA_BOUNDARY(srs_name=v['srs'], pos_list=[m.POINT(lon=x, lat=y) for x, y in v['vertices']])
    s.rupture_rate_model = m.RUPTURE_RATE_MODEL(
        truncated_gutenberg_richter=m.TRUNCATED_GUTEN_RICHTER(a_value=v['a'], b_value=v['b'], min_magnitude=v['min'],
                                                              max_magnitude=v['max'], type_tgr=v['type_tgr']),
        strike=v['strike'], dip=v['dip'], rake=v['rake'])
    s.rupture_depth_dist = m.RUPTURE_DEPTH_DISTRIB(magnitude=m.MAGNITUDE(type_mag=v['type_mag'], values=list(v['magnitudes'])),
                                                   depth=list(v['depths']))
    s.hypocentral_depth = v['hypo']
    return s


def source_dict(s):
    """The fields of an AreaSource, by the names of source_values."""
    r, d = s.rupture_rate_model, s.rupture_depth_dist
    t = r.truncated_gutenberg_richter
    return {'nrml': s.nrml_id, 'model': s.source_model_id, 'id': s.area_source_id, 'name': s.name, 'region': s.tectonic_region,
            'srs': s.area_boundary.srs_name, 'vertices': [(p.lon, p.lat) for p in s.area_boundary.pos_list],
            'a': t.a_value, 'b': t.b_value, 'min': t.min_magnitude, 'max': t.max_magnitude, 'type_tgr': t.type_tgr,
            'strike': r.strike, 'dip': r.dip, 'rake': r.rake, 'type_mag': d.magnitude.type_mag,
            'magnitudes': list(d.magnitude.values), 'depths': list(d.depth), 'hypo': s.hypocentral_depth}


def same_source(H, got, want, label):
    for k in sorted(want):
        H.check(H.same(got[k], want[k]), '%s: %s' % (label, k))


def schema_path(H):
    return os.path.join(os.path.dirname(H.mod('nrml.reader').__file__), 'schema', 'nrml.xsd')


def esc(t):
    return t.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')


def source_xml(v, drop=(), extra={}):
    """The areaSource element of source_values; drop leaves elements out, extra replaces contents."""
    def el(k, tag, content, attrs=''):
        if k in drop:
            return ''
        return '<%s%s>%s</%s>\n' % (tag, attrs, extra.get(k, content), tag)

    def at(n, x):
        return '' if x is None else ' %s="%s"' % (n, esc(x))
    sp = extra.get('sep', ' ')
    tgr = (el('a', 'aValueCumulative', v['a']) + el('b', 'bValue', v['b']) + el('min', 'minMagnitude', v['min']) +
           el('max', 'maxMagnitude', v['max']))
    rate = (el('tgr', 'truncatedGutenbergRichter', tgr, at('type', v['type_tgr'])) + el('strike', 'strike', v['strike']) +
            el('dip', 'dip', v['dip']) + el('rake', 'rake', v['rake']))
    pos = sp.join('%s%s%s' % (x, sp, y) for x, y in v['vertices'])
    ring = el('ring', 'gml:LinearRing', el('pos', 'gml:posList', pos), at('srsName', v['srs']))
    dist = (el('magnitudes', 'magnitude', sp.join('%s' % (m,) for m in v['magnitudes']), at('type', v['type_mag'])) +
            el('depths', 'depth', sp.join('%s' % (d,) for d in v['depths'])))
    body = [el('name', 'gml:name', esc(v['name'])) if v['name'] is not None else '', el('region', 'tectonicRegion', v['region']),
            el('boundary', 'areaBoundary', '<gml:Polygon><gml:exterior>%s</gml:exterior>%s</gml:Polygon>' % (ring, extra.get('hole', ''))),
            el('rate', 'ruptureRateModel', rate), el('dist', 'ruptureDepthDistribution', dist), el('hypo', 'hypocentralDepth', v['hypo'])]
    for i, j in extra.get('swap', ()):
        body[i], body[j] = body[j], body[i]
    return '<areaSource%s>\n%s</areaSource>\n' % (at('gml:id', None if 'id' in drop else v['id']), ''.join(body))


def model_xml(sources, nrml='n1', model='sm1', config='<config/>', drop=()):
    at = lambda n, x: '' if n in drop else ' gml:id="%s"' % x
    return ('<?xml version="1.0" encoding="utf-8"?>\n<nrml xmlns:gml="%s" xmlns="%s"%s>\n<sourceModel%s>\n%s\n%s</sourceModel>\n</nrml>\n'
            % (GML_NS, NRML_NS, at('nrml-id', nrml), at('model-id', model), config, ''.join(sources)))


def parse_model(H, doc):
    """The fields in an nrml document, by literal paths."""
    G, N = '{%s}' % GML_NS, '{%s}' % NRML_NS
    out = []
    root = doc.getroot()
    models = root.findall(N + 'sourceModel')
    H.check(root.tag == N + 'nrml' and len(models) == 1, 'one source model in the nrml element')
    if len(models) != 1:
        return out
    m = models[0]
    for e in m:
        if e.tag == N + 'config':
            continue
        H.check(e.tag == N + 'areaSource', 'only area sources')
        d = {'nrml': root.get(G + 'id'), 'model': m.get(G + 'id'), 'id': e.get(G + 'id')}

        def only(path):
            r = e.findall(path)
            H.check(len(r) == 1, 'one ' + path.replace(N, '').replace(G, ''))
            return r[0]

        def num(path):
            return H.number(only(path).text)

        def nums(path):
            return [H.number(t) for t in only(path).text.split()]
        names = e.findall(G + 'name')
        d['name'] = names[0].text if names else None
        d['region'] = only(N + 'tectonicRegion').text
        ring = N + 'areaBoundary/' + G + 'Polygon/' + G + 'exterior/' + G + 'LinearRing'
        d['srs'] = only(ring).get('srsName')
        pos = nums(ring + '/' + G + 'posList')
        H.check(len(pos) % 2 == 0, 'longitude latitude pairs')
        d['vertices'] = [(pos[i], pos[i + 1]) for i in range(0, len(pos) - 1, 2)]
        rate, tgr = N + 'ruptureRateModel/', N + 'ruptureRateModel/' + N + 'truncatedGutenbergRichter'
        d['type_tgr'] = only(tgr).get('type')
        for k, t in (('a', 'aValueCumulative'), ('b', 'bValue'), ('min', 'minMagnitude'), ('max', 'maxMagnitude')):
            d[k] = num(tgr + '/' + N + t)
        for k in ('strike', 'dip', 'rake'):
            d[k] = num(rate + N + k)
        dist = N + 'ruptureDepthDistribution/'
        d['type_mag'] = only(dist + N + 'magnitude').get('type')
        d['magnitudes'], d['depths'] = nums(dist + N + 'magnitude'), nums(dist + N + 'depth')
        d['hypo'] = num(N + 'hypocentralDepth')
        out.append(d)
    return out
