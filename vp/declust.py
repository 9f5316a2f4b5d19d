"""Catalogues and reference definitions for the declustering checks."""
import math

# longitude, latitude: neighbours within one, some or none of the windows
SPOTS = [(10.0, 45.0), (10.2, 45.0), (10.0, 45.35), (10.9, 45.0), (14.0, 46.0)]
SPOTS3 = [(10.0, 45.0), (10.0, 45.35), (10.9, 45.0)]
MAGS = [4.0, 5.0, 6.5, 7.25]
WINDOWS = ['GardnerKnopoff', 'Gruenthal', 'Uhrhammer']
COLS = ['year', 'month', 'day', 'lon', 'lat', 'mag', 'sigma']
DATES = [(1990, 1, 1), (1990, 1, 20), (1990, 3, 5), (1990, 12, 31), (1991, 1, 1), (1992, 7, 9)]

# places where degrees mean little: the date line, the poles, far south
GLOBE = [(179.95, -10.0), (-179.95, -10.1), (-179.0, -10.0), (0.0, 89.9), (180.0, 89.95), (-60.0, 80.0), (-58.0, 80.0), (-120.0, -33.0), (-120.4, -33.3)]
# eleven events of several clusters; the sixth varies
_E = [((10.0, 45.0), (1990, 6, 1), 6.5), ((10.2, 45.0), (1990, 7, 1), 5.0), ((14.1, 46.0), (1993, 3, 20), 4.6), ((10.1, 45.1), (1990, 12, 31), 4.5),
      ((-179.8, -20.1), (1991, 2, 2), 5.25), None, ((14.0, 46.0), (1993, 3, 1), 5.75), ((10.0, 45.2), (1990, 5, 20), 4.75), ((0.0, 0.0), (1990, 6, 15), 5.5),
      ((179.9, -20.0), (1991, 1, 1), 7.25), ((10.3, 44.9), (1992, 2, 1), 4.25)]
MANY = dict(n=len(_E), dates='table', sorted=True, spots_of=[[e[0]] if e else [(10.1, 44.9), (10.6, 45.0), (14.2, 46.1), (0.1, 0.1), (-179.95, -20.0)] for e in _E],
            date_of=[[e[1]] if e else [(1990, 4, 1), (1990, 6, 10), (1991, 1, 25), (1992, 11, 30), (1993, 3, 2)] for e in _E],
            mags=[[e[2]] if e else [4.05, 5.125, 6.0, 7.5] for e in _E])

# the same with more clusters and lone events elsewhere
_L = _E + [((-150.0 + 9 * (k // 3) + 0.1 * (k % 3), 30.0 - 4 * (k // 3)), (1990 + k * 5 % 4, 1 + k * 7 % 12, 1 + k * 11 % 28), 4.015625 + 0.15625 * (k * 7 % 22)) for k in range(22)]
_L = [_L[i * 10 % 33] for i in range(33)]
LONG = dict(MANY, n=len(_L), spots_of=[[e[0]] if e else MANY['spots_of'][5] for e in _L], date_of=[[e[1]] if e else MANY['date_of'][5] for e in _L],
            mags=[[e[2]] if e else MANY['mags'][5] for e in _L])

_k = _L.index(None)
FEW = dict(LONG, **{f: LONG[f][:_k] + [v] + LONG[f][_k + 1:] for f, v in (
    ('spots_of', [(10.1, 44.9), (14.2, 46.1)]), ('date_of', [(1990, 6, 10), (1993, 3, 2)]), ('mags', [4.05, 7.5]))})



def rims():
    """Two events, a dozen metres inside or outside each other's windows: magnitudes and locations of many decimals."""
    mags = [4.004, 5.237, 6.496]
    km = [f(m) for m in mags for f in (lambda m: 10 ** (0.1238 * m + 0.983), lambda m: math.exp(1.77 + math.sqrt(0.037 + 1.02 * m)), lambda m: math.exp(-1.024 + 0.804 * m))]
    a = 10.00049
    return dict(n=2, windows=WINDOWS, span=0, mags=mags, spots_of=[[(a, 0.0)], [(round(a + (w + e) / (6371.227 * math.pi / 180), 7), 0.0) for w in km for e in (-0.012, 0.012)]])


def pairs(k):
    """k pairs far from each other, and an event that varies: near the last pair, or alone, or with either of two lone events."""
    at = [(-175.0 + 14 * (i % 25), -70.0 + 14 * (i // 25)) for i in range(k)]
    ev = [((x + 0.1 * j, y), (1990 + (i + j) % 2 * 2 + i % 3, 1, 1 + j), 4.0 + 0.015625 * (i * 7 % k) + 0.0078125 * j)
          for i, (x, y) in enumerate(at) for j in (0, 1)]
    ev = [((x, y), (1990, 1 + i % 12, 1 + j), m) for i, j, ((x, y), d, m) in [(e // 2, e % 2, ev[e]) for e in range(2 * k)]]
    ev = [ev[i * 7 % len(ev)] for i in range(len(ev))] if len(ev) % 7 else ev
    m = len(ev) // 2
    x, y = at[-1]
    ev.insert(m, None)
    return dict(n=len(ev), dates='table', sorted=True,
                spots_of=[[e[0]] if e else [(x + 0.05, y), (0.0, 80.0)] for e in ev],
                date_of=[[e[1]] if e else [(1990, 1 + (k - 1) % 12, 1)] for e in ev],
                mags=[[e[2]] if e else [3.5, 7.5] for e in ev])


class Cat(object):
    """A symbolic catalogue; date styles: 'years' (1 January), 'days' (day of January), 'months', 'table'."""
    def __init__(self, H, n, p):
        self.H, self.n = H, n
        self.rows = []
        span = p.get('span', 3)
        for i in range(n):
            s = str(i)
            style = p.get('dates', 'years')
            if style == 'years':
                y, m, d = H.int('year' + s, 1990, 1990 + span), 1, 1
            elif style == 'days':
                y, m, d = H.int('year' + s, 1990, 1990 + span), 1, H.int('day' + s, 1, 31)
            else:
                y, m, d = H.picks('date' + s, p['date_of'][i] if 'date_of' in p else p.get('datetable', DATES))
            lon, lat = H.picks('spot' + s, p['spots_of'][i] if 'spots_of' in p else p.get('spots', SPOTS))
            mag = H.pick('mag' + s, p['mags'][i] if p.get('sorted') else p.get('mags', MAGS))
            self.rows.append([H.num(x) * H.num(1.0) for x in (y, m, d, lon, lat, mag)])
        if p.get('distinct'):
            H.distinct([r[5] for r in self.rows])
        if p.get('sigma'):
            for i, r in enumerate(self.rows):
                r.append(H.real('sigma%d' % i, 0, 1))
        cum = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
        self.t = []
        for r in self.rows:
            c = H.num(0.0)
            for k in range(12):
                c = H.ite(r[1] == k + 1, H.num(float(cum[k])), c)
            self.t.append(r[0] + (c + r[2] - 1) / 365)
        self.mag = [r[5] for r in self.rows]

    def matrix(self, order=None):
        return self.H.arr([self.rows[i] for i in (order or range(self.n))], 'f')

    def order(self):
        """Positions from the largest to the smallest magnitude (forks; ties in any order)."""
        H = self.H
        out = []
        for i in range(self.n):
            k = 0
            while k < len(out) and H.decide(self.mag[out[k]] >= self.mag[i]):
                k += 1
            out.insert(k, i)
        return out

    def dist(self, i, j):
        H = self.H
        k = math.pi / 180
        a, b = self.rows[i], self.rows[j]
        la, lb = a[4] * k, b[4] * k
        s1 = H.fun('sin', (la - lb) / 2)
        s2 = H.fun('sin', (a[3] - b[3]) * k / 2)
        h = s1 * s1 + H.fun('cos', la) * H.fun('cos', lb) * s2 * s2
        return 2 * 6371.227 * H.fun('arcsin', H.fun('sqrt', h))


FIXED = (0.0, 1.0)


class FixedWindow(object):
    """The same window at every magnitude, whose limits events can lie exactly on."""
    def __init__(self, H):
        self.H = H

    def calc(self, magnitude):
        H = self.H
        n = H.shape(magnitude)[0]
        return [H.arr([H.num(x) for _ in range(n)], 'f') for x in FIXED]


def windows(H, opt, mag):
    """Published distance (km) and time (years) windows; Uhrhammer's are left to D06."""
    if opt == 'Fixed':
        return H.num(FIXED[0]), H.num(FIXED[1])
    if opt == 'GardnerKnopoff':
        d = H.fun('power', 10.0, mag * 0.1238 + 0.983)
        t = H.ite(mag >= 6.5, H.fun('power', 10.0, mag * 0.032 + 2.7389), H.fun('power', 10.0, mag * 0.5409 - 0.547)) / 365
    elif opt == 'Gruenthal':
        d = H.fun('exp', H.fun('sqrt', mag * 1.02 + 0.037) + 1.77)
        t = H.ite(mag >= 6.5, H.fun('power', 10.0, mag * 0.024 + 2.8), H.fun('exp', H.fun('sqrt', mag * 17.32 + 0.62) - 3.95)) / 365
    else:
        w = H.mod('mtoolkit.scientific.declustering').time_dist_windows[opt]
        d, t = w.calc(H.arr([mag]))
        d, t = d[0], t[0]
    return d, t


def near(H, c, i, j, sw, exact):
    """j inside the distance window of i; coordinates that close to its edge are left out."""
    if exact:
        return H.And(c.rows[i][3] == c.rows[j][3], c.rows[i][4] == c.rows[j][4])
    d = c.dist(i, j)
    H.assume(H.Or(d > sw + 1e-5, d < sw - 1e-5))
    return d <= sw


def reference(H, c, method, opt, par):
    """(flags, same-cluster relation) by the definition of the method; distinct magnitudes."""
    n = c.n
    order = c.order()
    free = [True] * n
    flag = [H.num(0)] * n
    rel = {(i, j): False for i in range(n) for j in range(i)}
    for a, i in enumerate(order):
        sd, st = windows(H, opt, c.mag[i])
        cand = {}
        for j in order[a + 1:]:
            cand[j] = H.And(free[i], free[j], near(H, c, i, j, sd, opt == 'Fixed'))
        if method == 'gk':
            late, early = {}, {}
            for j in cand:
                dt = c.t[j] - c.t[i]
                if par != 0 and opt != 'Fixed':
                    H.assume(H.Or(dt > -st * par + 1e-8, dt < -st * par - 1e-8))
                if opt != 'Fixed':
                    H.assume(H.Or(dt > st + 1e-8, dt < st - 1e-8))
                late[j] = H.And(cand[j], dt >= 0, dt <= st)
                early[j] = H.And(cand[j], dt < 0, dt >= -st * par)
        else:
            w = par / 365.0
            late, early = chain(H, c, i, cand, w, 1), chain(H, c, i, cand, w, -1)
        mem = {j: H.Or(late[j], early[j]) for j in cand}
        some = H.Or(*mem.values()) if mem else False
        for j in cand:
            flag[j] = H.ite(late[j], 1, H.ite(early[j], -1, flag[j]))
            rel[max(i, j), min(i, j)] = H.Or(rel[max(i, j), min(i, j)], mem[j])
            for k in cand:
                if k < j:
                    rel[j, k] = H.Or(rel[j, k], H.And(mem[j], mem[k]))
        free = [H.And(f, H.Not(mem[j])) if j in mem else f for j, f in enumerate(free)]
        free[i] = H.And(free[i], H.Not(some))
    return flag, rel


def is_false(x):
    return x is False


def chain(H, c, i, cand, w, sign):
    """Events reached from i by steps in one direction of time, each no longer than w."""
    js = list(cand)
    if sign > 0:
        ok = {j: H.And(cand[j], c.t[j] >= c.t[i]) for j in js}
    else:
        ok = {j: H.And(cand[j], c.t[j] < c.t[i]) for j in js}

    js = [j for j in js if not is_false(ok[j])]

    def step(a, b):
        d = (c.t[b] - c.t[a]) * sign
        return H.And(d >= 0, d <= w + 1e-12)
    got = {j: H.And(ok[j], step(i, j)) for j in js}
    for _ in range(len(js) - 1):
        got = {j: H.Or(got[j], H.And(ok[j], H.Or(*[H.And(got[k], step(k, j)) for k in js if k != j]))) for j in js}
    return {j: got.get(j, False) for j in cand}


def run(H, c, method, opt, par, order=None):
    """((clusters, purged, flags), exception, matrix given)."""
    m = H.mod('mtoolkit.scientific.declustering')
    if opt == 'Fixed':
        m.time_dist_windows['Fixed'] = FixedWindow(H)
    a = c.matrix(order)
    f = m.gardner_knopoff_decluster if method == 'gk' else m.afteran_decluster
    r, x = H.call(f, a, opt, par)
    return r, x, a


def same_cluster(H, vcl, i, j):
    return H.And(vcl[i] == vcl[j], vcl[i] != 0)


def numbers(H):
    """Many clusters: their numbers, sizes and mainshocks."""
    p = H.p
    c = Cat(H, p['n'], p)
    r, x, a = run(H, c, p['method'], 'GardnerKnopoff', p['par'])
    H.check(x is None, 'no exception')
    if x is not None:
        return
    n = c.n
    H.check(H.shape(r[0]) == (n,) and H.shape(r[2]) == (n,), 'one flag and one cluster number for each event')
    if H.shape(r[0]) != (n,) or H.shape(r[2]) != (n,):
        return
    v = [H.concrete_int(r[0][i]) for i in range(n)]
    f = [H.concrete_int(r[2][i]) for i in range(n)]
    used = sorted(set(v) - {0})
    H.check(used == list(range(1, len(used) + 1)), 'cluster numbers without gaps')
    H.check(len(used) == (n - 1) // 2, 'the clusters of the catalogue')
    for k in used:
        m = [i for i in range(n) if v[i] == k]
        H.check(len(m) >= 2 and [f[i] for i in m].count(0) == 1, 'exactly one mainshock in a cluster')
        for i in m:
            if f[i] == 0:
                H.check(H.And(*[c.mag[j] <= c.mag[i] for j in m]), 'no member larger than the mainshock')
                H.check(H.And(*[H.Iff(f[j] == -1, c.t[j] < c.t[i]) for j in m if j != i]), 'flag -1 exactly before the mainshock')
    H.check(all(f[i] == 0 for i in range(n) if v[i] == 0), 'event outside every cluster has flag 0')
    H.cover('end')
