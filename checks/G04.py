"""G04: fault activity rates follow the moment-rate balance."""
import math
from vp.harness import scen
from vp.concrete import load_check

ASSUMPTIONS = ['exponentials, logarithms and square roots of tabulated values are those of the platform, tolerance 1e-6 relative',
               'nhlib is not installed: the scaling relation is a stand-in that records its arguments']
SPANS = [(5.0, 6.0, 0.25), (4.5, 4.625, 0.125), (5.0, 8.0, 0.5), (6.0, 6.5, 1.0), (5.0, 6.6, 0.5), (5.25, 5.25, 0.25),
         (5.0, 6.5, 0.1), (5.0, 7.0, 0.2), (4.7, 6.1, 0.1), (-1.0, 0.0, 0.25), (5.0, 6.0, 0.3), (5.5, 5.0, 0.25), (3.1, 4.2, 0.1), (5.0, 7.002, 0.5), (5.0, 6.4, 0.1), (4.5, 5.7, 0.2)]
BS = [0.8, 1.0, 1.25]
OPTIONS = [('given', None, None), ('given', (16.1, 1.4), -90.0), ('scaling', None, -90.0), ('scaling', (16.1, 1.4), 0), ('scaling', None, None)]
TRACE = [(90.5632, 24.9265), (90.5108, 23.8924), (90.6156, 22.4002)]


def edges(lo, hi, w):
    n = max(0, int(math.ceil(round((hi - lo) / w, 6))))
    return [lo - w / 2 + i * w for i in range(n + 1)]


def expect(H, slip, a, dlr, mu, width, b, lo, hi, w, ms):
    c, dd = ms
    beta = H.fun('sqrt', dlr * 10.0 ** c / (mu * 1.0e10 * width * 1.0e5))
    dbar, bbar = dd * math.log(10), b * math.log(10)
    k = (dbar - bbar) / bbar / beta / 10.0 * H.fun('exp', -dbar / 2 * H.num(hi))
    N = [k * H.fun('exp', bbar * (hi - m)) for m in edges(lo, hi, w)]
    s = slip * (1 - a)
    return [s * (x - y) for x, y in zip(N, N[1:])]


def rates(H):
    m = H.mod('mtoolkit.scientific.fault_calculator')
    TR = H.mod('mtoolkit.geo.tectonic_region').TectonicRegionBuilder
    SF = H.mod('mtoolkit.geo.simple_fault').SimpleFaultGeo
    lo, hi, w = H.choice('span', H.p['spans'])
    b = H.pick('b', H.p['b'])
    dlr, mu = H.picks('region', H.p['regions'])
    up, low, dip = H.picks('fault', H.p['faults'])
    sf = SF(TRACE, up, low, dip)
    tr = TR.create_new_tect_region('9', {'model': ['Peer'], 'weight': [1.0]},
                                   {'value': [mu, 77.0], 'weight': [0.5, 0.5]}, {'value': [dlr, 0.5], 'weight': [0.25, 0.75]})
    if H.p['slip'] == 'any':
        slip = H.real('slip', 0.001, 200)
        a = H.pick('aseismic', [0.0, 0.25, 0.5, 0.9])
    else:
        slip = H.pick('slip', [20.0, 0.5])
        a = H.real('aseismic', 0, 0.99)
    given, ms, rake = H.choice('options', OPTIONS)
    kw = {'max_mag': H.num(hi)} if given == 'given' else {}
    if rake is not None:
        kw['rake'] = rake
    if ms:
        kw['moment_scaling'] = ms
    H.median_value = H.num(hi)
    r, x = H.call(m.get_mfd, slip, a, tr, sf, b, H.num(lo), H.num(w), **kw)
    H.check(x is None, 'rates computed')
    if x is not None:
        return
    if given == 'given':
        H.check(len(H.median_calls) == 0, 'a given maximum magnitude is used')
    else:
        H.check(len(H.median_calls) >= 1, 'no maximum magnitude: from the scaling relation')
        for area, rk in H.median_calls:
            H.check(H.close(area, sf.get_area()), 'of the area of the fault')
            H.check(rk is None and rake is None or rk is not None and rake is not None and H.eqv(rk, rake), 'and the rake')
    width = (low - up) / H.fun('sin', dip * (math.pi / 180))
    want = expect(H, slip, a, dlr, mu, width, b, lo, hi, w, ms or (16.05, 1.5))
    r = list(r)
    H.check(len(r) == len(want), 'one rate per magnitude interval')
    if len(r) == len(want):
        for i, (p, q) in enumerate(zip(r, want)):
            H.check(H.abs(p - q) <= 1e-6 * q, 'rate of the interval')
    H.cover('end')


def refuse(H):
    m = H.mod('mtoolkit.scientific.fault_calculator')
    TR = H.mod('mtoolkit.geo.tectonic_region').TectonicRegionBuilder
    SF = H.mod('mtoolkit.geo.simple_fault').SimpleFaultGeo
    slip, a = H.real('slip', -100, 100), H.real('aseismic', -3, 3)
    H.median_value = H.num(6.0)
    kw = H.choice('maximum', [{}, {'max_mag': 6.0}])
    r, x = H.call(m.get_mfd, slip, a, TR.create_tect_region_by_name(TR.VOLCANIC), SF(TRACE, 1.0, 11.0, 45.0), 1.0, 5.0, 0.5, **kw)
    ok = H.And(slip > 0, a >= 0, a < 1)
    if x is None:
        H.check(ok, 'wrong slip or aseismic share is refused')
    else:
        H.check(H.Not(ok), 'valid slip and aseismic share are accepted')
        H.check(isinstance(x, (AssertionError, ValueError)), 'refused with an error of its own')
    H.cover('accepted' if x is None else 'refused')


def scenarios(tier):
    t = tier != 'quick'
    R = [(1.25e-5, 30.0), (1.0e-4, 29.5), (1.25e-5, 48.75)]
    F = [(4.0, 35.0, 5.0), (0.0, 15.0, 90.0), (2.0, 12.5, 45.0)]
    if t:
        R, F = R + [(5e-5, 27.7), (1e-3, 60.0)], F + [(0.5, 20.25, 30.0), (10.0, 60.0, 12.0)]
    spans = SPANS + ([(4.0, 8.5, 0.1), (5.0, 9.0, 0.05), (3.3, 7.7, 0.2), (4.95, 8.05, 0.1), (5.0, 6.9, 0.1)] if t else [])
    p = {'spans': spans, 'regions': R, 'faults': F, 'float': True}
    bd = '%d magnitude spans, %d b-values, %d regions, %d faults, %%s, with and without maximum magnitude' % (len(spans), len(BS), len(R), len(F))
    return [scen('slip', rates, p=dict(p, slip='any', b=BS), covers=['end'], bounds=bd % 'any slip in [0.001, 200] mm/a, 4 aseismic shares'),
            scen('aseismic', rates, p=dict(p, slip='two', b=BS), covers=['end'], bounds=bd % '2 slips, any aseismic share in [0, 0.99]'),
            scen('refuse', refuse, covers=['accepted', 'refused'], bounds='any slip in +-100, any aseismic share in +-3')]
