"""Stand-ins for builtins and library modules which the code under test sees."""
import builtins
import re
import types
from fractions import Fraction

from . import core, arr
from .core import Num, SB, lift, tobool, band, bor, nmax, nmin, Unsupported
from .arr import SArr, is_sym, concrete, wrap

SPEC = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])')


def vp_mod(a, b):
    """a % b, with text formatting of symbolic numbers."""
    if not isinstance(a, str):
        if isinstance(a, (bytes, Num, SB, SArr)):
            return a % b
        return a % b
    args = b if isinstance(b, tuple) else (b,)
    if not isinstance(b, dict) and not builtins.any(isinstance(x, (Num, SB)) for x in args):
        return a % b
    out, pos, n = [], 0, 0
    for m in SPEC.finditer(a):
        out.append(a[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, typ = m.groups()
        if typ == '%':
            out.append('%')
            continue
        if name is not None:
            x = b[name]
        else:
            if n >= len(args):
                raise TypeError('not enough arguments for format string')
            x = args[n]
            n += 1
        if isinstance(x, SB):
            x = bool(x) if typ == 's' else x.num()
        if isinstance(x, Num) and typ in 'sr':
            s = str(x)
            s = s.rjust(int(width or 0)) if '-' not in flags else s.ljust(int(width or 0))
        elif isinstance(x, Num) and typ in 'diufFeEgG':
            s = core.fmt_num(x, (('.' + prec) if prec else '') + ('d' if typ in 'diu' else typ))
            s = s.rjust(int(width or 0)) if '-' not in flags else s.ljust(int(width or 0))
        else:
            s = m.group().replace('(%s)' % name, '') % (x,)
        out.append(s)
    out.append(a[pos:])
    if not isinstance(b, dict) and n < len(args):
        raise TypeError('not all arguments converted during string formatting')
    return ''.join(out)


class SymStr(str):
    """One of some texts: an equality is a condition on the selector, any
    other use decides which text it is (by forking)."""

    def __new__(cls, i, options):
        s = str.__new__(cls, '<text>')
        s.i, s.options = i, options
        return s

    def text(self):
        return self.options[int(self.i.pin())]

    def __eq__(self, o):
        if isinstance(o, SymStr):
            return bor(*[band(self.i == a, o.i == b) for a, x in enumerate(self.options)
                         for b, y in enumerate(o.options) if x is not None and x == y])
        if not isinstance(o, str):
            return False
        return bor(*[self.i == k for k, x in enumerate(self.options) if x == o])

    def __ne__(self, o):
        return core.bnot(self.__eq__(o))

    def __bool__(self):
        return bool(bor(*[self.i == k for k, x in enumerate(self.options) if x]))

    def __hash__(self):
        return hash(self.text())

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _pinned(n):
    f = getattr(str, n)

    def g(self, *a, **k):
        return f(self.text(), *[x.text() if isinstance(x, SymStr) else x for x in a], **k)
    return g


for _n in dir(str):
    if callable(getattr(str, _n)) and _n not in (
            '__new__', '__eq__', '__ne__', '__hash__', '__class__', '__getattribute__', '__init__', '__init_subclass__',
            '__subclasshook__', '__setattr__', '__delattr__', '__dir__', '__doc__', 'maketrans', '__getstate__'):
        setattr(SymStr, _n, _pinned(_n))


class _FMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or isinstance(x, Num) and x.k == 'f'

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)

    def __getattr__(cls, n):
        return getattr(float, n)


class VFLOAT(float, metaclass=_FMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, str):
            n = core.ENG.untoken(x)
            if n is not None:
                return n.as_k('f')
            return lift(float(x))
        if isinstance(x, SArr):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            return lift(x.item()).as_k('f')
        n = lift(x)
        if n is not None:
            return n.as_k('f')
        return lift(float(x))


class _IMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or isinstance(x, Num) and x.k == 'i' or isinstance(x, SB)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)

    def __getattr__(cls, n):
        return getattr(int, n)


class VINT(int, metaclass=_IMeta):
    def __new__(cls, x=0, *base):
        if isinstance(x, str):
            n = core.ENG.untoken(x)
            if n is not None and not base:
                if n.k == 'i':
                    return n
                if '.' in x:
                    raise ValueError("invalid literal for int() with base 10: '%s'" % x)
                return n.trunc()
            return lift(int(x, *base))
        if isinstance(x, SArr):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            x = x.item()
        n = lift(x)
        if n is not None:
            if n.v is not None and core.special(n.v):
                return int(n.v)            # raises as Python does
            return n.trunc()
        return lift(int(x, *base))


arr.VFLOAT, arr.VINT = VFLOAT, VINT


def _any(it):
    if isinstance(it, (SArr, list, tuple)):
        xs = list(it)
        if xs and builtins.all(isinstance(x, (bool, SB, Num)) for x in xs):
            return bor(*xs)
        return builtins.any(xs)
    return builtins.any(it)


def _all(it):
    if isinstance(it, (SArr, list, tuple)):
        xs = list(it)
        if xs and builtins.all(isinstance(x, (bool, SB, Num)) for x in xs):
            return band(*xs)
        return builtins.all(xs)
    return builtins.all(it)


def _minmax(real, fn):
    def f(*a, **k):
        if 'key' not in k:
            xs = list(a[0]) if len(a) == 1 else list(a)
            if xs and builtins.any(isinstance(x, (Num, SB)) for x in xs) and \
                    builtins.all(lift(x) is not None for x in xs):
                r = lift(xs[0])
                for x in xs[1:]:
                    r = fn(r, lift(x))
                return r
            if len(a) == 1:
                a = (xs,)
        return real(*a, **k)
    return f


def _abs(x):
    return abs(lift(x)) if isinstance(x, SB) else abs(x)


def _round(x, n=None):
    if isinstance(x, float):
        x = lift(x)
    return round(x, n) if n is not None else round(x)


def _sum(it, start=0):
    xs = list(it)
    r = start
    for x in xs:
        r = r + x
    return r


def _print(*a, **k):
    pass


def _pow(a, b, m=None):
    return a ** b if m is None else pow(a, b, m)


def _divmod(a, b):
    return a // b, a % b


BUILTINS = {'float': VFLOAT, 'int': VINT, 'any': _any, 'all': _all, 'min': _minmax(min, nmin),
            'max': _minmax(max, nmax), 'abs': _abs, 'round': _round, 'sum': _sum, 'print': _print,
            'pow': _pow, 'divmod': _divmod}


# ---- math
def math_module():
    import math
    m = types.ModuleType('math')
    for n in dir(math):
        if not n.startswith('__'):
            setattr(m, n, getattr(math, n))

    def cfall(f):
        def g(*a):
            if is_sym(list(a)):
                core.ENG.note_concretised('math.' + f.__name__)
            return wrap(f(*[concrete(x) for x in a]))
        return g
    for n in dir(math):
        if not n.startswith('__') and callable(getattr(math, n)):
            setattr(m, n, cfall(getattr(math, n)))

    def dom(name, lo):
        def g(x, *base):
            x = lift(x)
            if lo is not None and bool(x < 0 if lo else x <= 0):
                raise ValueError('math domain error')
            r = core.fun(name, x)
            if base:
                r = r / core.fun(name, lift(base[0]))
            return r
        return g
    for n, mn in (('exp', 'exp'), ('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'), ('atan', 'arctan'),
                  ('asin', 'arcsin'), ('acos', 'arccos'), ('expm1', 'expm1')):
        setattr(m, n, dom(mn, None))
    m.log, m.log10, m.log2, m.log1p = dom('log', 0), dom('log10', 0), dom('log2', 0), dom('log1p', None)
    m.sqrt = dom('sqrt', 1)
    m.atan2 = lambda a, b: core.arctan2(a, b)
    m.pow = lambda a, b: lift(a).as_k('f') ** lift(b)
    m.fabs = lambda x: abs(lift(x)).as_k('f')
    m.floor = lambda x: core.floor(x).as_k('i')
    m.ceil = lambda x: core.ceil(x).as_k('i')
    m.trunc = lambda x: lift(x).trunc()
    m.radians = lambda x: lift(x) * lift(math.pi) / 180
    m.degrees = lambda x: lift(x) * 180 / lift(math.pi)
    m.hypot = lambda a, b: core.fun('sqrt', lift(a) * a + lift(b) * b)
    m.isnan = lambda x: _fin(x, lambda v: v != v)
    m.isinf = lambda x: _fin(x, lambda v: v in (float('inf'), -float('inf')))
    m.isfinite = lambda x: _fin(x, lambda v: not core.special(v))
    m.fsum = lambda xs: _sum(xs, lift(0.0))
    m.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(lift(a) - b) <= nmax(
        lift(rel_tol) * nmax(abs(lift(a)), abs(lift(b))), lift(abs_tol))
    m.modf = lambda x: (lift(x) - lift(x).trunc(), lift(x).trunc().as_k('f'))
    m.copysign = lambda a, b: core.ite(lift(b) >= 0, abs(lift(a)), -abs(lift(a))).as_k('f')
    return m


def _fin(x, test):
    from . import npshim
    return npshim._isf(x, test)


# ---- datetime: the present is the harness's, not the machine's
def datetime_module(H):
    import datetime
    m = types.ModuleType('datetime')
    for n in dir(datetime):
        if not n.startswith('__'):
            setattr(m, n, getattr(datetime, n))

    class Now(object):
        def __init__(self):
            self.year = H.now_year()
            self.month, self.day, self.hour, self.minute, self.second, self.microsecond = 6, 15, 12, 0, 0, 0

        def timetuple(self):
            return (self.year, 6, 15)

    class dt(object):
        now = staticmethod(lambda tz=None: Now())
        utcnow = staticmethod(lambda: Now())
        today = staticmethod(lambda: Now())
    dt.__name__ = 'datetime'
    m.datetime = dt

    class date(object):
        today = staticmethod(lambda: Now())
    m.date = date
    return m


def time_module(H):
    import time
    m = types.ModuleType('time')
    for n in dir(time):
        if not n.startswith('__'):
            setattr(m, n, getattr(time, n))

    class st(object):
        def __init__(self):
            self.tm_year = H.now_year()

        def __getitem__(self, i):
            return [self.tm_year, 6, 15, 12, 0, 0, 0, 0, 0][i]
    m.localtime = m.gmtime = lambda *a: st()
    m.strftime = lambda f, *a: str(H.now_year()) if f == '%Y' else time.strftime(f, *a)
    return m


# ---- logging: empty bodies
class _Logger(object):
    def __getattr__(self, n):
        return lambda *a, **k: self

    def isEnabledFor(self, *a):
        return False


def logging_module(H):
    import logging
    m = types.ModuleType('logging')
    for n in dir(logging):
        if not n.startswith('__'):
            setattr(m, n, getattr(logging, n))
    lg = _Logger()
    m.getLogger = lambda *a: lg
    for n in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log'):
        setattr(m, n, lambda *a, **k: None)
    return m


# ---- scipy.stats.mstats.mquantiles (alphap = betap = 0.4)
def mquantiles(a, prob=(.25, .5, .75), alphap=.4, betap=.4, axis=None, limit=()):
    from . import npshim as np
    x = np.sort(arr.of(a).ravel()).a
    n = len(x)
    out = []
    for p in prob:
        p = core.frac(concrete(p))
        m = core.frac(alphap) + p * (1 - core.frac(alphap) - core.frac(betap))
        al = n * p + m
        k = int(min(max(al, 1), n - 1)) if n > 1 else 1
        g = min(max(al - k, 0), 1)
        if n == 1:
            out.append(x[0])
        else:
            out.append((1 - g) * lift(x[k - 1]) + g * lift(x[k]))
    return SArr(arr.arr1([lift(v) for v in out]), 'f')


def scipy_module(name):
    import importlib
    real = importlib.import_module(name)
    m = types.ModuleType(name)
    m.__path__ = []

    def ga(n):
        if n == 'mquantiles':
            return mquantiles
        v = getattr(real, n)
        if isinstance(v, types.ModuleType):
            return scipy_module(name + '.' + n)
        if callable(v):
            def g(*a, **k):
                core.ENG.note('real scipy call: ' + n)
                if is_sym(list(a)) or is_sym(k):
                    core.ENG.note_concretised('scipy.' + n)
                return wrap(v(*[concrete(x) for x in a], **dict((kk, concrete(x)) for kk, x in k.items())))
            return g
        return v
    m.__getattr__ = ga
    return m


# ---- shapely: polygons with concrete vertices, points anywhere
class Point(object):
    def __init__(self, *a):
        if len(a) == 1:
            a = tuple(a[0])
        self.x, self.y = a[0], a[1]
        self.coords = [(self.x, self.y)]

    def within(self, poly):
        return poly.contains(self)


class Polygon(object):
    """Real shapely decides validity; strict containment is encoded exactly."""

    def __init__(self, shell=None, holes=None):
        import shapely.geometry as sg
        pts = [tuple(p)[:2] for p in (shell.a if isinstance(shell, SArr) else shell)]
        if any(is_sym(list(p)) for p in pts):
            core.ENG.note_concretised('polygon')
        self.pts = [(core.frac(concrete(p[0])), core.frac(concrete(p[1]))) for p in pts]
        self.real = sg.Polygon([(float(x), float(y)) for x, y in self.pts])
        if self.pts and self.pts[0] == self.pts[-1]:
            self.pts = self.pts[:-1]

    is_valid = property(lambda s: s.real.is_valid)
    is_simple = property(lambda s: s.real.is_simple)
    is_empty = property(lambda s: s.real.is_empty)
    geom_type = 'Polygon'
    area = property(lambda s: lift(s.real.area))
    wkt = property(lambda s: s.real.wkt)
    exterior = property(lambda s: s.real.exterior)

    @property
    def bounds(self):
        xs, ys = [p[0] for p in self.pts], [p[1] for p in self.pts]
        return tuple(Num('f', v=v) for v in (min(xs), min(ys), max(xs), max(ys)))

    def where(self, p):
        """(strictly inside, on the boundary)."""
        x, y = lift(p.x), lift(p.y)
        n = len(self.pts)
        on, cross = [], False
        for i in range(n):
            (x1, y1), (x2, y2) = self.pts[i], self.pts[(i + 1) % n]
            if y1 == y2:
                on.append(band(y == y1, x >= min(x1, x2), x <= max(x1, x2)))
                continue
            # side of the edge: linear, the vertices are concrete
            d = (x - Num('f', v=x1)) * Num('f', v=y2 - y1) - (y - Num('f', v=y1)) * Num('f', v=x2 - x1)
            on.append(band(d == 0, y >= min(y1, y2), y <= max(y1, y2)))
            up = band(y >= min(y1, y2), y < max(y1, y2))
            left = (d < 0) if y2 > y1 else (d > 0)
            cross = _xor(cross, band(up, left))
        o = bor(*on)
        return band(cross, core.bnot(o)), o

    def contains(self, p):
        return self.where(p)[0]

    def covers(self, p):
        i, o = self.where(p)
        return bor(i, o)

    def intersects(self, p):
        return self.covers(p)

    def disjoint(self, p):
        return core.bnot(self.covers(p))

    def touches(self, p):
        return self.where(p)[1]

    # polygons derived from this one: its vertices are concrete
    def _derived(self, real):
        if real.geom_type != 'Polygon' or len(real.interiors):
            raise core.Unsupported('a derived %s' % real.geom_type)
        return Polygon(list(real.exterior.coords))

    convex_hull = property(lambda s: s._derived(s.real.convex_hull))
    envelope = property(lambda s: s._derived(s.real.envelope))

    def buffer(self, *a, **k):
        return self._derived(self.real.buffer(*[concrete(x) for x in a], **k))

    def simplify(self, *a, **k):
        return self._derived(self.real.simplify(*[concrete(x) for x in a], **k))

    def contains_properly(self, p):
        return self.contains(p)


def _xor(a, b):
    if isinstance(a, bool):
        return core.bnot(b) if a else b
    return a ^ b


def shapely_module():
    m = types.ModuleType('shapely')
    m.__path__ = []
    g = types.ModuleType('shapely.geometry')
    g.Point, g.Polygon = Point, Polygon
    m.geometry = g
    m.Point, m.Polygon = Point, Polygon
    pr = types.ModuleType('shapely.prepared')
    pr.prep = lambda p: p
    m.prepared = pr
    return m, g, pr


# ---- nhlib is not installed: the harness says what the scaling relation returns
def nhlib_modules(H):
    mods = {}
    for n in ('nhlib', 'nhlib.scalerel', 'nhlib.scalerel.wc1994'):
        mods[n] = types.ModuleType(n)
        mods[n].__path__ = []

    class WC1994(object):
        def get_median_mag(self, area, rake):
            return H.median_mag(area, rake)
    mods['nhlib.scalerel.wc1994'].WC1994 = WC1994
    mods['nhlib.scalerel'].wc1994 = mods['nhlib.scalerel.wc1994']
    mods['nhlib.scalerel'].WC1994 = WC1994
    mods['nhlib'].scalerel = mods['nhlib.scalerel']
    return mods


def copy_module():
    """copy works on our values through __copy__/__deepcopy__."""
    import copy
    return copy


# ---- os over a directory whose contents are symbolic
def symbolic_fs(H, root, st):
    """Existence tests below root are answered symbolically; any other use of
    the file system first fixes its contents on this path.  Returns unchanged()."""
    import os
    made = []

    def materialise():
        if not made:
            made.append(dict((n, H.concrete_int(s)) for n, s in st.items()))
            H.make_tree(made[0])

    def state(w):
        return st[w] if w in st else 0

    def isdir(cur):
        return True if not cur else state('/'.join(cur)) == 1

    def where(p):
        """(path below root, conditions on the way to it): parents of missing
        directories are missing; None: not below root."""
        p = os.fspath(p)
        if not p:
            return None
        if not os.path.isabs(p):
            p = root + os.sep + p
        if p != root and not p.startswith(root + os.sep):
            return None
        cur, way = [], []
        for c in p[len(root) + 1:].split(os.sep):
            if c in ('', '.', '..'):
                way.append(isdir(cur))
                if c == '..':
                    if not cur:
                        return None
                    cur.pop()
            else:
                cur.append(c)
        return '/'.join(cur), way

    def test(real, cond, top):
        def f(p, *a, **k):
            w = where(p)
            if made:
                return real(p, *a, **k)
            if w is None:
                materialise()
                return real(p, *a, **k)
            w, way = w
            return H.And(*(way + [top if w == '' else cond(st[w]) if w in st else False]))
        return f

    def fall(f):
        def g(*a, **k):
            materialise()
            return f(*a, **k)
        return g

    m, mp = types.ModuleType('os'), types.ModuleType('os.path')
    pure = ('getcwd', 'getpid', 'fspath', 'fsencode', 'fsdecode', 'strerror', 'getenv', 'urandom')
    for n in dir(os):
        v = getattr(os, n)
        if not n.startswith('__'):
            setattr(m, n, fall(v) if callable(v) and not isinstance(v, type) and n not in pure else v)
    for n in dir(os.path):
        if not n.startswith('__'):
            setattr(mp, n, getattr(os.path, n))
    for n in ('getsize', 'getmtime', 'getctime', 'getatime', 'samefile', 'ismount'):
        setattr(mp, n, fall(getattr(os.path, n)))
    mp.isdir = test(os.path.isdir, lambda s: s == 1, True)
    mp.isfile = test(os.path.isfile, lambda s: s == 2, False)
    mp.exists = test(os.path.exists, lambda s: s != 0, True)
    mp.lexists = test(os.path.lexists, lambda s: s != 0, True)
    mp.islink = test(os.path.islink, lambda s: False, False)
    m.access = test(os.access, lambda s: s != 0, True)
    m.path = mp
    H.reg.mods['os'], H.reg.mods['os.path'] = m, mp
    H.reg.builtins['open'] = fall(open)

    def unchanged():
        if not made:
            return not H.listing()
        return H.listing() == dict((n, s) for n, s in made[0].items() if s)
    return unchanged
