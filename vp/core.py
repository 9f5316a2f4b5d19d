"""Symbolic values and the path engine.

Real code runs on these values; every branch on a symbolic condition asks z3
which sides are feasible, and the engine explores all of them by re-execution
with decision prefixes.  Floats are exact rationals (decimal literals), ints
are mathematical integers.  Finite-domain values ("factors": a table over
selector variables) let transcendental functions be evaluated numerically on
every element of the domain while the solver reasons about the selectors.
"""
import math
import sys
import time
from fractions import Fraction

Z3PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if Z3PATH not in sys.path:
    sys.path.append(Z3PATH)
import numpy as np          # the real numpy (from /opt/venv)
import z3

CAP = 1500                   # largest factor table
INF = float('inf')
NAN = float('nan')


class PathAbort(BaseException):
    """Ends the current path (BaseException: code under test must not catch it)."""


class Infeasible(PathAbort):
    pass


class Budget(PathAbort):
    pass


ENG = None                   # the engine of the current path


def set_engine(e):
    global ENG
    ENG = e
    from . import npshim
    npshim.pi._e = npshim.e._e = None      # terms belong to a path's context


def eng():
    return ENG


_fr = {}


def frac(x):
    """Exact rational for a Python number: floats by their shortest decimal."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    if x != x or x in (INF, -INF):
        return x
    r = _fr.get(x)
    if r is None:
        r = Fraction(repr(x))
        if len(_fr) < 200000:
            _fr[x] = r
    return r


def tame(v):
    """Keep denominators bounded (only reached after products of irrationals)."""
    if type(v) is Fraction and v.denominator.bit_length() > 400:
        n, d = v.numerator, v.denominator
        if n == 0:
            return Fraction(0)
        sh = 400 - (d.bit_length() - n.bit_length() if d.bit_length() > abs(n).bit_length() else 0)
        p = d.bit_length() - abs(n).bit_length() + 200
        if p < 0:
            p = 0
        return Fraction(round(v * (1 << p)), 1 << p)
    return v


def rv(v):
    return z3.RealVal('%d/%d' % (v.numerator, v.denominator)) if v.denominator != 1 else z3.RealVal(v.numerator)


class Sel(object):
    __slots__ = ('id', 'e', 'dom')

    def __init__(self, id, e, dom):
        self.id, self.e, self.dom = id, e, dom


class Factor(object):
    """Finite table over selectors; arr has one axis per selector."""
    __slots__ = ('sels', 'arr')

    def __init__(self, sels, arr):
        self.sels, self.arr = sels, arr


def _expand(f, sels):
    idx = tuple(slice(None) if s in f.sels else None for s in sels)
    return f.arr[idx]


def fjoin(fs):
    ids = {}
    for f in fs:
        for s in f.sels:
            ids[s.id] = s
    sels = tuple(ids[i] for i in sorted(ids))
    size = 1
    for s in sels:
        size *= len(s.dom)
    if size > CAP:
        return None
    return sels


def _objarr(x):
    if isinstance(x, np.ndarray):
        return x
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def fmap(fn, args, k):
    """Apply fn elementwise over factors/concrete args; None when too large."""
    fs = [a.f for a in args if a.f is not None]
    sels = fjoin(fs)
    if sels is None:
        return None
    ops = []
    for a in args:
        if a.f is not None:
            ops.append(_expand(a.f, sels))
        else:
            o = np.empty((1,) * len(sels), dtype=object)
            o[...] = a.v
            ops.append(o)
    out = _objarr(np.frompyfunc(fn, len(ops), 1)(*ops))
    shape = tuple(len(s.dom) for s in sels)
    if out.shape != shape:
        out = np.broadcast_to(out, shape).copy()
    return sels, out


def ftrim(sels, out):
    """Drop axes which do not matter."""
    i = 0
    while i < len(sels):
        first = out.take([0], axis=i)
        if out.shape[i] == 1 or all(x is y or x == y for x, y in
                                    zip(out.flat, np.broadcast_to(first, out.shape).flat)):
            out = out.take(0, axis=i)
            sels = sels[:i] + sels[i + 1:]
        else:
            i += 1
    return sels, out


def mkfactor(sels, out, k):
    sels, out = ftrim(sels, np.asarray(out, dtype=object))
    if not sels:
        return Num(k, v=out.item() if isinstance(out, np.ndarray) else out)
    return Num(k, f=Factor(sels, out))


def fbool(sels, out):
    """z3 Bool (or Python bool) of a table of booleans."""
    sels, out = ftrim(sels, np.asarray(out, dtype=object))
    if not sels:
        return bool(out.item() if isinstance(out, np.ndarray) else out)
    return SB(_fb(sels, out), Factor(sels, out))


def _fb(sels, out):
    if not sels:
        return z3.BoolVal(bool(out.item() if isinstance(out, np.ndarray) else out))
    groups = {}
    s = sels[0]
    for i, d in enumerate(s.dom):
        sub = out[i]
        key = tuple(bool(x) for x in (sub.flat if isinstance(sub, np.ndarray) else [sub]))
        groups.setdefault(key, (sub, []))[1].append(d)
    parts = []
    for key, (sub, ds) in groups.items():
        if not any(key):
            continue
        g = selin(s, ds)
        parts.append(g if all(key) else z3.And(g, _fb(sels[1:], sub)))
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


def selin(s, ds):
    if len(ds) == len(s.dom):
        return z3.BoolVal(True)
    ds = sorted(ds)
    parts, i = [], 0
    while i < len(ds):
        j = i
        while j + 1 < len(ds) and s.dom.index(ds[j + 1]) == s.dom.index(ds[j]) + 1:
            j += 1
        if i == j:
            parts.append(s.e == ds[i])
        else:
            c = []
            if ds[i] != s.dom[0]:
                c.append(s.e >= ds[i])
            if ds[j] != s.dom[-1]:
                c.append(s.e <= ds[j])
            parts.append(z3.And(*c) if len(c) != 1 else c[0])
        i = j + 1
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


def _fe(sels, out, mk):
    if not sels:
        return mk(out.item() if isinstance(out, np.ndarray) else out)
    groups = {}
    s = sels[0]
    for i, d in enumerate(s.dom):
        sub = out[i]
        key = tuple(sub.flat) if isinstance(sub, np.ndarray) else (sub,)
        groups.setdefault(key, (sub, []))[1].append(d)
    items = list(groups.values())
    e = _fe(sels[1:], items[-1][0], mk)
    for sub, ds in reversed(items[:-1]):
        e = z3.If(selin(s, ds), _fe(sels[1:], sub, mk), e)
    return e


class SB(object):
    """Symbolic boolean (f: its table, when it is one of finite values)."""
    __slots__ = ('e', 'f')
    __array_ufunc__ = None

    def __init__(self, e, f=None):
        self.e, self.f = e, f

    def __bool__(self):
        return ENG.branch(self.e)

    def num(self):
        return Num('i', e=z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), rng=(0, 1))

    def _b(self, o, fn, cf):
        o = tobool(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, SB):
            return cf(o)
        return sb(fn(self.e, o.e))

    def __and__(self, o):
        return self._b(o, z3.And, lambda c: self if c else False)
    __rand__ = __and__

    def __or__(self, o):
        return self._b(o, z3.Or, lambda c: True if c else self)
    __ror__ = __or__

    def __xor__(self, o):
        return self._b(o, z3.Xor, lambda c: ~self if c else self)
    __rxor__ = __xor__

    def __invert__(self):
        r = sb(z3.Not(self.e))
        if self.f is not None and isinstance(r, SB):
            r.f = Factor(self.f.sels, np.frompyfunc(lambda v: not v, 1, 1)(self.f.arr))
        return r

    def __eq__(self, o):
        if isinstance(o, (SB, bool, np.bool_)):
            return self._b(o, lambda a, b: a == b, lambda c: self if c else ~self)
        return self.num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return bnot(r)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __add__(self, o): return self.num() + o
    __radd__ = __add__
    def __sub__(self, o): return self.num() - o
    def __rsub__(self, o): return o - self.num()
    def __mul__(self, o): return self.num() * o
    __rmul__ = __mul__
    def __truediv__(self, o): return self.num() / o
    def __neg__(self): return -self.num()
    def __lt__(self, o): return self.num() < o
    def __le__(self, o): return self.num() <= o
    def __gt__(self, o): return self.num() > o
    def __ge__(self, o): return self.num() >= o
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __repr__(self): return 'SB(%s)' % self.e
    def __str__(self): return str(bool(self))
    def any(self): return self
    def all(self): return self
    @property
    def shape(self): return ()


def sb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if ENG is not None and ENG.known:
        r = ENG.known.get(e.get_id())       # already decided on this path
        if r is not None:
            return r
    return SB(e)


def tobool(x):
    """bool or SB for a truth value operand, None when it is not one."""
    if isinstance(x, SB):
        return x
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, Num):
        return x.nonzero()
    if isinstance(x, (int, float, np.number, Fraction)):
        return bool(x)
    return None


def bnot(x):
    if isinstance(x, SB):
        return ~x
    if x is NotImplemented:
        return x
    return not x


def _join(r, xs, fn):
    """Keep the table of a conjunction or disjunction of small tables."""
    if isinstance(r, SB) and len(xs) <= 8 and all(x.f is not None for x in xs):
        sels = fjoin([x.f for x in xs])
        if sels is not None:
            n = 1
            for s in sels:
                n *= len(s.dom)
            if n <= 300:
                ops = [_expand(x.f, sels) for x in xs]
                out = _objarr(np.frompyfunc(lambda *a: fn(a), len(ops), 1)(*ops))
                shape = tuple(len(s.dom) for s in sels)
                if out.shape != shape:
                    out = np.broadcast_to(out, shape).copy()
                r.f = Factor(sels, out)
    return r


def band(*xs):
    es, xsb = [], []
    for x in xs:
        x = tobool(x)
        if x is False:
            return False
        if x is not True:
            es.append(x.e)
        if isinstance(x, SB):
            xsb.append(x)
    if not es:
        return True
    return _join(sb(z3.And(*es)), xsb, all) if len(es) > 1 else xsb[0]


def bor(*xs):
    es, xsb = [], []
    for x in xs:
        x = tobool(x)
        if x is True:
            return True
        if x is not False:
            es.append(x.e)
        if isinstance(x, SB):
            xsb.append(x)
    if not es:
        return False
    return _join(sb(z3.Or(*es)), xsb, any) if len(es) > 1 else xsb[0]


def be(x):
    x = tobool(x)
    return x.e if isinstance(x, SB) else z3.BoolVal(bool(x))


def special(v):
    return type(v) is float


FLOAT = False      # arithmetic on constants and tables as IEEE doubles rather than exact
EAGER = False


def set_float(on):
    global FLOAT
    FLOAT = bool(on)


def _cadd(a, b):
    if FLOAT or special(a) or special(b):
        return frac(float(a) + float(b))
    return tame(a + b)


def _csub(a, b):
    if FLOAT or special(a) or special(b):
        return frac(float(a) - float(b))
    return tame(a - b)


def _cmul(a, b):
    if FLOAT or special(a) or special(b):
        return frac(float(a) * float(b))
    return tame(a * b)


def _cdiv(a, b):
    if FLOAT or special(a) or special(b) or b == 0:
        with np.errstate(all='ignore'):
            return frac(float(np.float64(a) / np.float64(b)))
    return tame(a / b)


def _cfloordiv(a, b):
    if FLOAT or special(a) or special(b) or b == 0:
        with np.errstate(all='ignore'):
            return frac(float(np.float64(a) // np.float64(b)))
    return Fraction(math.floor(a / b))


def _cmod(a, b):
    if FLOAT or special(a) or special(b) or b == 0:
        with np.errstate(all='ignore'):
            return frac(float(np.float64(a) % np.float64(b)))
    return a - b * math.floor(a / b)


def _cpow(a, b):
    if not FLOAT and not special(a) and not special(b) and b.denominator == 1 and abs(b) <= 16 and (a != 0 or b >= 0):
        return tame(a ** int(b))
    with np.errstate(all='ignore'):
        return frac(float(np.power(np.float64(a), np.float64(b))))


def cfun(name):
    f = getattr(np, name)

    def g(a):
        with np.errstate(all='ignore'):
            return frac(float(f(np.float64(a))))
    return g


def _csqrt(a):
    if not special(a) and a >= 0:
        n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
        if n * n == a.numerator and d * d == a.denominator:
            return Fraction(n, d)
    with np.errstate(all='ignore'):
        return frac(float(np.sqrt(np.float64(a))))


CFUN = dict((n, cfun(n)) for n in ('exp', 'log', 'log10', 'sin', 'cos', 'tan', 'arctan', 'arcsin', 'arccos', 'log1p', 'expm1', 'log2'))
CFUN['sqrt'] = _csqrt
CFUN['erfc'] = lambda a: frac(math.erfc(float(a)))


def _carctan2(a, b):
    return frac(float(np.arctan2(float(a), float(b))))


LN10 = frac(math.log(10.0))


class Num(object):
    """A number: concrete (v), finite (f: Factor) or symbolic (_e: z3 term)."""
    __slots__ = ('k', 'v', 'f', '_e', 'rng')
    __array_ufunc__ = None

    def __init__(self, k, v=None, f=None, e=None, rng=None):
        self.k, self.v, self.f, self._e, self.rng = k, v, f, e, rng

    # -- representation
    @property
    def conc(self):
        return self.v is not None

    @property
    def e(self):
        if self._e is None:
            if self.v is not None:
                if special(self.v):
                    raise Unsupported('inf/nan in a term')
                v = Fraction(self.v)
                self._e = z3.IntVal(v.numerator) if v.denominator == 1 and self.k == 'i' else rv(v)
            else:
                f = self.f
                if all(type(x) is not float and Fraction(x).denominator == 1 for x in f.arr.flat):
                    self._e = _fe(f.sels, f.arr, lambda v: z3.IntVal(int(v)))
                else:
                    for x in f.arr.flat:
                        if special(x):
                            return ENG.split_special(self)
                    self._e = _fe(f.sels, f.arr, rv)
        return self._e

    @property
    def r(self):
        e = self.e
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def fin(self):
        """Factor form if there is one (ranged integer terms get a selector)."""
        if self.f is None and self.v is None and self.rng is not None and \
                self.rng[1] - self.rng[0] < 24 and self._e.sort() == z3.IntSort():
            s = ENG.selector(self._e, self.rng)
            self.f = Factor((s,), np.array([Fraction(d) for d in s.dom], dtype=object))
        return self.f is not None or self.v is not None

    def as_k(self, k):
        if k == self.k:
            return self
        return Num(k, self.v, self.f, self._e, self.rng)

    # -- arithmetic
    def _bin(self, o, cf, zf, rev=False, k=None):
        o = lift(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        if k is None:
            k = 'f' if 'f' in (a.k, b.k) else 'i'
        if a.v is not None and b.v is not None:
            return Num(k, v=cf(a.v, b.v))
        if (a.f is not None or a.v is not None or a.rng) and (b.f is not None or b.v is not None or b.rng) \
                and a.fin() and b.fin():
            r = fmap(cf, (a, b), k)
            if r is not None:
                return mkfactor(r[0], r[1], k)
        for x in (a, b):
            if x.v is not None and special(x.v):
                return self._special(a, b, cf, k)
        return zf(a, b, k)

    def _special(self, a, b, cf, k):
        # inf or nan against a finite symbolic value: only its sign can matter
        av, bv = a.v, b.v
        if av is not None and av != av or bv is not None and bv != bv:
            return Num('f', v=NAN)
        if a.v is None:
            s = Fraction(1) if a > 0 else (Fraction(-1) if a < 0 else Fraction(0))
            return Num('f', v=cf(s, bv))
        s = Fraction(1) if b > 0 else (Fraction(-1) if b < 0 else Fraction(0))
        return Num('f', v=cf(av, s))

    def __add__(self, o):
        return self._bin(o, _cadd, _zadd)

    def __radd__(self, o):
        return self._bin(o, _cadd, _zadd, True)

    def __sub__(self, o):
        return self._bin(o, _csub, _zsub)

    def __rsub__(self, o):
        return self._bin(o, _csub, _zsub, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * int(self)
        return self._bin(o, _cmul, _zmul)

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * int(self)
        return self._bin(o, _cmul, _zmul, True)

    def __truediv__(self, o):
        return self._bin(o, _cdiv, _zdiv, k='f')

    def __rtruediv__(self, o):
        return self._bin(o, _cdiv, _zdiv, True, k='f')

    def __floordiv__(self, o):
        return self._bin(o, _cfloordiv, _zfloordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, _cfloordiv, _zfloordiv, True)

    def __mod__(self, o):
        return self._bin(o, _cmod, _zmod)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._bin(o, _cmod, _zmod, True)

    def __pow__(self, o, m=None):
        return self._bin(o, _cpow, _zpow)

    def __rpow__(self, o):
        return self._bin(o, _cpow, _zpow, True)

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.v is not None:
            return Num(self.k, v=abs(self.v))
        if self.fin():
            r = fmap(abs, (self,), self.k)
            return mkfactor(r[0], r[1], self.k)
        return Num(self.k, e=z3.If(self.e >= 0, self.e, -self.e))

    # -- comparison
    def _cmp(self, o, cf, zf):
        if isinstance(o, (str, bytes)) or o is None:
            return NotImplemented
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.v is not None and o.v is not None:
            return bool(cf(self.v, o.v))
        if (self.f is not None or self.v is not None or self.rng) and (o.f is not None or o.v is not None or o.rng) \
                and self.fin() and o.fin():
            r = fmap(cf, (self, o), 'i')
            if r is not None:
                return fbool(*r)
        if self.v is not None and special(self.v):
            return bool(cf(self.v, Fraction(0)))
        if o.v is not None and special(o.v):
            return bool(cf(Fraction(0), o.v))
        a, b = self.e, o.e
        if a.sort() != b.sort():
            a, b = self.r, o.r
        return sb(zf(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)
        return False if r is NotImplemented and (o is None or isinstance(o, (str, bytes))) else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return bnot(r)

    def nonzero(self):
        return self != 0

    def __bool__(self):
        return bool(self.nonzero())

    def __hash__(self):
        if self.v is not None:
            return hash(self.v)
        return hash(self.pin())

    # -- to Python
    def pin(self):
        """Concrete value of this number on this path, by forking."""
        if self.v is None:
            self.v = ENG.pin(self)
        return self.v

    def __index__(self):
        v = self.pin()
        if special(v) or v.denominator != 1 or self.k == 'f':
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(v)

    def __int__(self):
        return int(self.trunc().pin())

    def __float__(self):
        v = self.v
        if v is None:
            ENG.note_concretised('float()')
            v = self.pin()
        return float(v)

    def __round__(self, n=None):
        if n is None:
            r = rint(self)
            return r.as_k('i')
        return roundn(self, int(n))

    def __floor__(self):
        return floor(self).as_k('i')

    def __ceil__(self):
        return ceil(self).as_k('i')

    def __trunc__(self):
        return self.trunc()

    def trunc(self):
        if self.k == 'i':
            return self
        if self.v is not None:
            return Num('i', v=Fraction(int(self.v)))
        if self.fin():
            r = fmap(lambda a: Fraction(int(a)), (self,), 'i')
            return mkfactor(r[0], r[1], 'i')
        if self.e.sort() == z3.IntSort():
            return Num('i', e=self.e, rng=self.rng)
        return ite(self >= 0, floor(self), ceil(self)).as_k('i')

    def __repr__(self):
        return ENG.token(self) if ENG else '%s' % (self.v,)

    def __str__(self):
        return ENG.token(self)

    def __format__(self, spec):
        return fmt_num(self, spec)

    # -- numpy scalar look-alike
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        from . import arr
        return arr.DT(self.k)

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __reduce__(self): raise Unsupported('pickling a symbolic number')
    def item(self): return self
    def copy(self): return self
    def astype(self, t):
        from . import arr
        return arr.cast(self, arr.kind_of(t))
    def is_integer(self): return self == floor(self)
    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise IndexError('invalid index to scalar variable.')
    def flatten(self):
        from . import arr
        return arr.SArr(np.array([self], dtype=object), self.k)
    ravel = flatten
    def sum(self, *a, **k): return self
    def min(self, *a, **k): return self
    def max(self, *a, **k): return self
    def any(self): return self.nonzero()
    def all(self): return self.nonzero()
    def tolist(self): return self
    def reshape(self, *s): return self.flatten().reshape(*s)
    def round(self, n=0): return roundn(self, n)
    def conjugate(self): return self


class Unsupported(Exception):
    """The encoding does not cover this operation on symbolic values."""


def _zadd(a, b, k):
    if a.e.sort() == b.e.sort():
        return Num(k, e=z3.simplify(a.e + b.e))
    return Num(k, e=z3.simplify(a.r + b.r))


def _zsub(a, b, k):
    if a.e.sort() == b.e.sort():
        return Num(k, e=z3.simplify(a.e - b.e))
    return Num(k, e=z3.simplify(a.r - b.r))


def _zmul(a, b, k):
    for x, y in ((a, b), (b, a)):
        if x.v is not None:
            if x.v == 0:
                return Num(k, v=Fraction(0))
            if x.v == 1:
                return y.as_k(k)
            if y.e.sort() == z3.IntSort() and x.v.denominator == 1:
                return Num(k, e=z3.simplify(z3.IntVal(int(x.v)) * y.e))
            return Num(k, e=z3.simplify(rv(x.v) * y.r))
    # a finite factor times a term: split on the factor's values by ITE
    for x, y in ((a, b), (b, a)):
        if x.f is not None and x.f.arr.size <= 12:
            f = x.f
            if not any(special(t) for t in f.arr.flat):
                return Num(k, e=_fe(f.sels, f.arr, lambda v: z3.simplify(rv(v) * y.r)))
    ENG.nonlinear += 1
    if a.e.sort() == b.e.sort():
        return Num(k, e=z3.simplify(a.e * b.e))
    return Num(k, e=z3.simplify(a.r * b.r))


def _zdiv(a, b, k):
    if b.v is not None:
        if b.v == 0:
            if a > 0:
                return Num('f', v=INF)
            return Num('f', v=-INF if a < 0 else NAN)
        return Num('f', e=z3.simplify(a.r * rv(1 / Fraction(b.v))))
    if a.v is not None and a.v == 0:
        if b == 0:
            return Num('f', v=NAN)
        return Num('f', v=Fraction(0))
    if b == 0:
        return _zdiv(a, Num('f', v=Fraction(0)), k) if a.v is None else Num('f', v=_cdiv(a.v, Fraction(0)))
    if b.f is not None and b.f.arr.size <= 24 and not any(special(t) for t in b.f.arr.flat):
        f = b.f
        return Num('f', e=_fe(f.sels, f.arr, lambda v: z3.simplify(a.r * rv(1 / v)) if v != 0 else z3.RealVal(0)))
    ENG.nonlinear += 1
    return Num('f', e=a.r / b.r)


def _zfloordiv(a, b, k):
    if b.v is not None and b.v != 0:
        q = floor(_zdiv(a, b, 'f'))
        return q.as_k(k)
    return floor(a / b).as_k(k)


def _zmod(a, b, k):
    return (a - b * _zfloordiv(a, b, k)).as_k(k)


def _zpow(a, b, k):
    if b.v is not None:
        v = b.v
        if v == Fraction(1, 2):
            return fun('sqrt', a)
        if v.denominator == 1 and 0 <= v <= 8:
            r = Num(k, v=Fraction(1))
            for _ in range(int(v)):
                r = r * a if not r.conc else a
            return r.as_k(k)
        if v.denominator == 1 and -8 <= v < 0:
            return 1 / _zpow(a, Num('i', v=-v), k)
        return fun('exp', b * fun('log', a))
    if a.v is not None and a.v > 0:
        if a.v == 10:
            return fun('exp', b * Num('f', v=LN10))
        return fun('exp', b * Num('f', v=frac(math.log(a.v))))
    raise Unsupported('symbolic power')


def fun(name, a):
    """Transcendental function: numeric on concrete and finite values, else UF."""
    a = lift(a)
    if a.v is not None:
        return Num('f', v=CFUN[name](a.v))
    if a.fin():
        r = fmap(CFUN[name], (a,), 'f')
        if r is not None:
            return mkfactor(r[0], r[1], 'f')
    if name == 'log10':
        return fun('log', a) / Num('f', v=LN10)
    if name == 'log2':
        return fun('log', a) / Num('f', v=frac(math.log(2)))
    if name in ('log', 'sqrt') and (a < 0 if name == 'sqrt' else a <= 0):
        if name == 'log' and a == 0:
            return Num('f', v=-INF)
        return Num('f', v=NAN)
    return ENG.uf(name, a)


def arctan2(a, b):
    a, b = lift(a), lift(b)
    if a.v is not None and b.v is not None:
        return Num('f', v=_carctan2(a.v, b.v))
    if a.fin() and b.fin():
        r = fmap(_carctan2, (a, b), 'f')
        if r is not None:
            return mkfactor(r[0], r[1], 'f')
    return ENG.uf2('arctan2', a, b)


def floor(a):
    a = lift(a)
    if a.v is not None:
        return a if special(a.v) else Num(a.k, v=Fraction(math.floor(a.v)))
    if a.fin():
        r = fmap(lambda x: x if special(x) else Fraction(math.floor(x)), (a,), a.k)
        return mkfactor(r[0], r[1], a.k)
    if a.e.sort() == z3.IntSort():
        return a
    return Num(a.k, e=ENG.toint(a.e))


def ceil(a):
    return -floor(-lift(a))


def rint(a):
    """Round half to even, as numpy and Python do."""
    a = lift(a)
    if a.v is not None:
        return a if special(a.v) else Num(a.k, v=Fraction(round(a.v)))
    if a.fin():
        r = fmap(lambda x: x if special(x) else Fraction(round(x)), (a,), a.k)
        return mkfactor(r[0], r[1], a.k)
    if a.e.sort() == z3.IntSort():
        return a
    return Num(a.k, e=ENG.rint(a.e))


def roundn(a, n):
    p = Fraction(10) ** int(n)
    a = lift(a)
    if a.k == 'i' and n >= 0:
        return a
    return (rint(a * Num('f', v=p)) / Num('f', v=p)).as_k(a.k)


def trunc(a):
    a = lift(a)
    return a.trunc().as_k(a.k)


def lift(x):
    """Num for any number-like value, or None."""
    t = type(x)
    if t is Num:
        return x
    if t is SB:
        return x.num()
    if t is bool or t is np.bool_:
        return Num('i', v=Fraction(int(x)))
    if t is int:
        return Num('i', v=Fraction(x))
    if t is float:
        return Num('f', v=frac(x))
    if t is Fraction:
        return Num('f', v=x)
    if isinstance(x, np.bool_):
        return Num('i', v=Fraction(int(x)))
    if isinstance(x, (int, np.integer)):
        return Num('i', v=Fraction(int(x)))
    if isinstance(x, (float, np.floating)):
        return Num('f', v=frac(float(x)))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    from . import arr
    if isinstance(x, arr.SArr) and x.a.ndim == 0:
        return lift(x.a.item())
    return None


def ite(c, a, b):
    """a if c else b, without forking."""
    c = tobool(c)
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (bool, SB, np.bool_)) and isinstance(b, (bool, SB, np.bool_)):
        if a is b:
            return a
        return sb(z3.If(c.e, be(a), be(b)))
    a, b = lift(a), lift(b)
    if a is None or b is None:
        raise Unsupported('ite of non-numbers')
    k = 'f' if 'f' in (a.k, b.k) else 'i'
    if a is b:
        return a
    if a.v is not None and b.v is not None and a.v == b.v:
        return a.as_k(k)
    if c.f is not None and (a.f is not None or a.v is not None or a.rng) and (b.f is not None or b.v is not None or b.rng) \
            and a.fin() and b.fin():
        r = fmap(lambda p, x, y: x if p else y, (Num('i', f=c.f), a, b), k)
        if r is not None:
            return mkfactor(r[0], r[1], k)
    if (a.v is not None and special(a.v)) or (b.v is not None and special(b.v)):
        return a if bool(c) else b
    if a.e.sort() == b.e.sort():
        x, y = a.e, b.e
    else:
        x, y = a.r, b.r
    rng = None
    if x.sort() == z3.IntSort():
        ra, rb = irange(a), irange(b)
        if ra and rb:
            rng = (min(ra[0], rb[0]), max(ra[1], rb[1]))
            if rng[1] - rng[0] > 24:
                rng = None
    return Num(k, e=z3.If(c.e, x, y), rng=rng)


def irange(a):
    if a.v is not None:
        return (int(a.v), int(a.v)) if not special(a.v) and a.v.denominator == 1 else None
    if a.rng:
        return a.rng
    if a.f is not None:
        try:
            vs = [int(x) for x in a.f.arr.flat]
        except (ValueError, OverflowError):
            return None
        return (min(vs), max(vs))
    return None


def nmax(a, b):
    a, b = lift(a), lift(b)
    k = 'f' if 'f' in (a.k, b.k) else 'i'
    if a.fin() and b.fin():
        r = fmap(lambda x, y: x if x >= y or x != x else y, (a, b), k)
        if r is not None:
            return mkfactor(r[0], r[1], k) if r[0] else Num(k, v=r[1].item())
    return ite(a >= b, a, b).as_k(k)


def nmin(a, b):
    a, b = lift(a), lift(b)
    k = 'f' if 'f' in (a.k, b.k) else 'i'
    if a.fin() and b.fin():
        r = fmap(lambda x, y: x if x <= y or x != x else y, (a, b), k)
        if r is not None:
            return mkfactor(r[0], r[1], k) if r[0] else Num(k, v=r[1].item())
    return ite(a <= b, a, b).as_k(k)


def count(bs):
    """Number of true values among bs, as a ranged integer."""
    base, es = 0, []
    bs = [tobool(b) for b in bs]
    if EAGER:
        ts = [b for b in bs if isinstance(b, SB)]
        if ts and all(b.f is not None for b in ts):
            sels = fjoin([b.f for b in ts])
            if sels is not None:
                ops = [_expand(b.f, sels) for b in ts]
                n = Fraction(sum(b is True for b in bs))
                out = _objarr(np.frompyfunc(lambda *a: n + sum(map(bool, a)), len(ops), 1)(*ops))
                shape = tuple(len(s.dom) for s in sels)
                if out.shape != shape:
                    out = np.broadcast_to(out, shape).copy()
                return mkfactor(sels, out, 'i')
    for b in bs:
        if b is True:
            base += 1
        elif b is not False:
            es.append(b.e)
    if not es:
        return Num('i', v=Fraction(base))
    e = z3.Sum(*[z3.If(x, z3.IntVal(1), z3.IntVal(0)) for x in es]) if len(es) > 1 else \
        z3.If(es[0], z3.IntVal(1), z3.IntVal(0))
    if base:
        e = e + base
    return Num('i', e=e, rng=(base, base + len(es)))


def fmt_num(x, spec):
    """format() of a Num: a token for the (possibly rounded) value."""
    import re
    x = lift(x)
    m = re.match(r'^[<>=^]?[-+ ]?0?(\d*)(?:\.(\d+))?([fFeEgGdsin%]?)$', spec or '')
    if not m:
        return ENG.token(x)
    prec, typ = m.group(2), m.group(3)
    if x.v is not None and spec:
        return format(int(x.v) if typ in ('d', 'i') and not special(x.v) else float(x.v), spec.replace('i', 'd'))
    if typ in ('f', 'F'):
        return ENG.token(roundn(x.as_k('f'), int(prec) if prec else 6))
    if typ in ('d', 'i'):
        return ENG.token(x.trunc())
    if typ in ('e', 'E', 'g', 'G') or (prec and typ == ''):
        if x.v is not None:
            return ENG.token(Num('f', v=frac(float(format(float(x.v), spec.strip() or 'g')))))
        p = int(prec) if prec else 6
        if typ in ('g', 'G', '') and p >= 12:
            return ENG.token(x)
        return ENG.token(sigdig(x.as_k('f'), p + (1 if typ in 'eE' else 0)))
    return ENG.token(x)


def sigdig(x, p):
    """x rounded to p significant digits (forks on its order of magnitude)."""
    if x == 0:
        return Num('f', v=Fraction(0))
    a = abs(x)
    for ex in range(0, 9):
        if a < Num('f', v=Fraction(10) ** ex):
            return roundn(x, p - ex)
    return roundn(x, p - 9)


class Engine(object):
    """One path: a solver with the path condition, decisions so far, inputs."""

    def __init__(self, prefix=(), timeout_ms=20000, deadline=None):
        z3.z3._main_ctx = None       # a context of its own: ids repeat on replay
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', timeout_ms)
        self.prefix = list(prefix)
        self.pos = 0
        self.dec = []
        self.known = {}
        self.keep = []
        self.model = None
        self.todo = []
        self.inputs = {}          # name -> (kind, z3 term, info)
        self.order = []
        self.tokens = {}
        self.unit_tokens = False    # real tokens that are valid in any range of a schema
        self.tokid = {}
        self.ntok = 0
        self.sels = {}
        self.ufs = {}
        self.fresh = 0
        self.queries = 0
        self.qtime = 0.0
        self.unknown = 0
        self.nonlinear = 0
        self.notes = {}
        self.deadline = deadline
        self.npc = 0
        self.forks = 0

    # -- solver access
    def add(self, e):
        self.solver.add(e)
        self.npc += 1

    def check(self, *extra):
        t = time.time()
        if extra:
            self.solver.push()
            for x in extra:
                self.solver.add(x)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if r == z3.unknown:
            r, m = self.retry()
        if extra:
            self.solver.pop()
        self.queries += 1
        self.qtime += time.time() - t
        if r == z3.unknown:
            self.unknown += 1
        return r, m

    def retry(self):
        """A second solver (non-incremental tactic) for hard queries."""
        s = z3.Solver()
        s.set('timeout', 30000)
        for a in self.solver.assertions():
            s.add(a)
        r = s.check()
        return r, (s.model() if r == z3.sat else None)

    def assume(self, c):
        c = tobool(c)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        if self.model is not None and not z3.is_true(self.model.eval(c.e, model_completion=True)):
            self.model = None
        self.add(c.e)
        if self.pos < len(self.prefix):
            return          # still replaying a feasible prefix
        if self.model is None:
            self.getmodel()

    def getmodel(self):
        if self.model is None:
            r, m = self.check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                self.note('unknown_feasibility')
                raise Infeasible()
            self.model = m
        return self.model

    def replaying(self):
        return self.pos < len(self.prefix)

    def choose(self, n):
        """Unconstrained choice among n alternatives."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
        else:
            if self.deadline and time.time() > self.deadline:
                raise Budget()
            d = 0
            for i in range(n - 1, 0, -1):
                self.todo.append(self.dec + [i])
            self.forks += n - 1
        self.dec.append(d)
        return d

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = e.get_id()
        if i in self.known:
            return self.known[i]
        ne = z3.simplify(z3.Not(e))
        j = ne.get_id()
        if j in self.known:
            return not self.known[j]
        self.keep.append((e, ne))
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.model = None
        else:
            if self.deadline and time.time() > self.deadline:
                raise Budget()
            m = self.getmodel()
            mv = m.eval(e, model_completion=True)
            if z3.is_true(mv):
                d = True
            elif z3.is_false(mv):
                d = False
            else:
                r, m2 = self.check(e)
                d = r == z3.sat
                if d:
                    self.model = m2
            r, _ = self.check(ne if d else e)
            if r != z3.unsat:
                self.forks += 1
                self.todo.append(self.dec + [not d])
        self.dec.append(d)
        self.known[i] = d
        self.known[j] = not d
        self.add(e if d else ne)
        return d

    def pin(self, x):
        """Fork over the values of x (finite values first)."""
        if x.f is not None:
            f = x.f
            seen = []
            for v in f.arr.flat:
                if v not in seen and v == v:
                    seen.append(v)
            for v in seen[:-1]:
                if bool(x == Num(x.k, v=v)):
                    return v
            if any(v != v for v in f.arr.flat):
                if bool(x == Num(x.k, v=seen[-1])):
                    return seen[-1]
                return NAN
            self.assume(x == Num(x.k, v=seen[-1]))
            return seen[-1]
        e = x.e
        if e.sort() == z3.IntSort():
            if x.rng is not None:
                for v in range(x.rng[0], x.rng[1]):
                    if self.branch(e == v):
                        return Fraction(v)
                return Fraction(x.rng[1])
            for _ in range(200):
                # the value tried has to be the same on every re-execution:
                # take the smallest feasible one
                v = self.small(e)
                if self.branch(e == v):
                    return Fraction(v)
            raise Budget()
        # a real: one witness value stands for the rest (under-approximation)
        self.note_concretised('real value')
        v = self.det_value(e)
        self.add(e == rv(v))
        self.model = None
        return v

    def small(self, e):
        if self.pos < len(self.prefix):
            # deterministic: recompute on the same path condition
            pass
        opt = z3.Optimize()
        opt.set('timeout', 10000)
        for a in self.solver.assertions():
            opt.add(a)
        h = opt.minimize(e)
        self.queries += 1
        if opt.check() != z3.sat:
            raise Infeasible()
        v = opt.model().eval(e, model_completion=True)
        return v.as_long()

    def det_value(self, e):
        s = z3.Solver()
        s.set('timeout', 20000)
        for a in self.solver.assertions():
            s.add(a)
        if s.check() != z3.sat:
            raise Infeasible()
        return zval(s.model().eval(e, model_completion=True))

    # -- terms
    def selector(self, e, rng):
        i = e.get_id()
        s = self.sels.get(i)
        if s is None:
            self.keep.append(e)
            self.fresh += 1
            if e.num_args():
                c = z3.Int('c!%d' % self.fresh)
                self.add(c == e)
                self.add(z3.And(c >= rng[0], c <= rng[1]))
                if self.model is not None:
                    self.model = None
            else:
                c = e
            s = Sel(self.fresh, c, list(range(rng[0], rng[1] + 1)))
            self.sels[i] = s
        return s

    def toint(self, e):
        e = z3.simplify(e)
        i = ('floor', e.get_id())
        r = self.ufs.get(i)
        if r is None:
            self.keep.append(e)
            self.fresh += 1
            r = z3.Int('fl!%d' % self.fresh)
            self.add(z3.And(z3.ToReal(r) <= e, e < z3.ToReal(r) + 1))
            self.model = None
            self.ufs[i] = r
        return r

    def rint(self, e):
        """Nearest integer, ties to even."""
        e = z3.simplify(e)
        i = ('rint', e.get_id())
        r = self.ufs.get(i)
        if r is None:
            self.keep.append(e)
            self.fresh += 1
            r = z3.Int('ri!%d' % self.fresh)
            h = z3.RealVal('1/2')
            rr = z3.ToReal(r)
            self.add(z3.And(rr - h <= e, e <= rr + h,
                            z3.Implies(z3.Or(e == rr - h, e == rr + h), r % 2 == 0)))
            self.model = None
            self.ufs[i] = r
        return r

    def uf(self, name, a):
        e = z3.simplify(a.r)
        i = (name, e.get_id())
        t = self.ufs.get(i)
        if t is None:
            if name in ('exp', 'sin'):
                ne = z3.simplify(-e)
                j = (name, ne.get_id())
                if j in self.ufs:
                    r = Num('f', e=self.ufs[j])
                    self.keep.append(ne)
                    return 1 / r if name == 'exp' else -r
            self.keep.append(e)
            f = z3.Function(name + '!', z3.RealSort(), z3.RealSort())
            t = f(e)
            self.ufs[i] = t
            self.axioms(name, e, t)
            self.model = None
        return Num('f', e=t)

    def axioms(self, name, e, t):
        ad = self.add
        L = self.ufs.setdefault('list', {}).setdefault(name, [])
        if name == 'exp':
            ad(t > 0)
            ad(t >= 1 + e)
            ad(z3.Implies(e <= 0, t <= 1))
        elif name == 'sqrt':
            ad(t >= 0)
            ad(t * t == e)
        elif name == 'log':
            ad(t <= e - 1)
            ad(z3.Implies(e >= 1, t >= 0))
            for (e2, t2) in self.ufs.get('list', {}).get('exp', []):
                ad(z3.Implies(e == t2, t == e2))
        elif name in ('sin', 'cos'):
            ad(z3.And(t >= -1, t <= 1))
        if name in ('exp', 'log', 'sqrt'):
            for (e2, t2) in L:
                ad(z3.And((e < e2) == (t < t2), (e == e2) == (t == t2)))
                if name == 'exp':
                    eps = z3.RealVal('1/1000000000')
                    ad(z3.Implies(z3.And(e - e2 <= eps, e2 - e <= eps),
                                  z3.And(t - t2 <= t * eps * 2, t2 - t <= t * eps * 2)))
        L.append((e, t))

    def uf2(self, name, a, b):
        x, y = z3.simplify(a.r), z3.simplify(b.r)
        i = (name, x.get_id(), y.get_id())
        t = self.ufs.get(i)
        if t is None:
            self.keep.append((x, y))
            f = z3.Function(name + '!', z3.RealSort(), z3.RealSort(), z3.RealSort())
            t = f(x, y)
            self.ufs[i] = t
            if name == 'arctan2':
                self.add(z3.And(t > rv(Fraction('-3.15')), t < rv(Fraction('3.15'))))
            self.model = None
        return Num('f', e=t)

    def split_special(self, x):
        """A finite value with inf/nan entries met a term: fork them away."""
        bad = np.frompyfunc(lambda v: special(v), 1, 1)(x.f.arr)
        if bool(fbool(x.f.sels, bad)):
            raise Unsupported('inf/nan in a term')
        return _fe(x.f.sels, x.f.arr, lambda v: rv(Fraction(0)) if special(v) else rv(v))

    # -- text
    def token(self, x):
        """Text standing for the number: exact for concrete values."""
        x = lift(x)
        if x.v is not None:
            if special(x.v):
                return repr(x.v)
            if x.v.denominator == 1 and x.k == 'i':
                return str(int(x.v))
            f = float(x.v)
            if frac(f) == x.v:
                return repr(f)
            key = ('v', x.v)
        elif x.f is not None:
            key = ('f', tuple(s.id for s in x.f.sels), tuple(x.f.arr.flat))
        else:
            self.keep.append(x._e)
            key = ('e', x._e.get_id())
        key = key + (x.k,)
        t = self.tokid.get(key)
        if t is None:
            self.ntok += 1
            if x.k == 'f':
                t = ('0.%d' if self.unit_tokens else '%d.0625') % (7000000 + self.ntok)
            else:
                t = '%d' % (8000000 + self.ntok)
            self.tokid[key] = t
            self.tokens[t] = x
        return t

    def untoken(self, s):
        return self.tokens.get(s.strip()) if isinstance(s, str) else None

    # -- inputs
    # -- models for replay
    def margin(self, e, neg=False):
        """e (or its negation) with slack in its real inequalities."""
        d = z3.RealVal('1/100000')
        k = e.decl().kind()
        if k == z3.Z3_OP_NOT:
            return self.margin(e.arg(0), not neg)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            xs = [self.margin(c, neg) for c in e.children()]
            return z3.And(*xs) if (k == z3.Z3_OP_AND) != neg else z3.Or(*xs)
        if k == z3.Z3_OP_IMPLIES:
            a, b = e.children()
            if neg:
                return z3.And(self.margin(a), self.margin(b, True))
            return z3.Or(self.margin(a, True), self.margin(b))
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and e.arg(0).sort() == z3.RealSort():
            a, b = e.children()
            less = k in (z3.Z3_OP_LE, z3.Z3_OP_LT)
            if neg:
                less = not less
            return a + d <= b if less else a >= b + d
        if k == z3.Z3_OP_EQ and e.arg(0).sort() == z3.RealSort() and neg:
            a, b = e.children()
            return z3.Or(a + d <= b, a >= b + d)
        if k == z3.Z3_OP_EQ and e.arg(0).sort() == z3.BoolSort() and not neg:
            a, b = e.children()
            return z3.Or(z3.And(self.margin(a), self.margin(b)), z3.And(self.margin(a, True), self.margin(b, True)))
        return z3.Not(e) if neg else e

    def nice_models(self, extra, raw=None, want=3):
        """Input values satisfying the path condition and extra: with slack and
        round numbers when possible, then as the solver gives them."""
        out = []
        base = z3.Solver()
        base.set('timeout', 5000)
        base.set('smt.core.minimize', False) if False else None
        lits = list(self.solver.assertions()) + list(extra)
        for a in lits:
            base.add(a)
        ps = []
        for i, a in enumerate(lits):
            m = self.margin(a)
            if not m.eq(a):
                p = z3.Bool('mg!%d' % i)
                base.add(z3.Implies(p, m))
                ps.append(p)
        full = True
        m = None
        t0 = time.time()
        for _ in range(12):
            r = base.check(*ps)
            if r == z3.sat:
                m = base.model()
                break
            if r == z3.unknown or not ps or time.time() - t0 > 20:
                break
            full = False
            core = set(str(x) for x in base.unsat_core())
            rest = [p for p in ps if str(p) not in core]
            if len(rest) == len(ps):
                break
            ps = rest
        if m is not None:
            for p in ps:
                base.add(p)
            m = self.roundoff(base, m)
            out.append((full, self.values(m)))
        if raw is None and len(out) < want:
            r, raw = self.check(*extra)
            if r != z3.sat:
                raw = None
        if raw is not None:
            out.append((False, self.values(raw)))
        return out

    def roundoff(self, s, m):
        """Move real inputs to short binary fractions where the constraints allow."""
        t0 = time.time()
        for n in self.order:
            kind, term, info = self.inputs[n]
            if kind != 'real' or time.time() - t0 > 5:
                continue
            v = zval(m.eval(term, model_completion=True))
            for den in (4, 1024, 1 << 20):
                q = Fraction(round(v * den), den)
                s.push()
                s.add(term == rv(q))
                if s.check() == z3.sat:
                    m = s.model()
                    break          # keep the pushed equality
                s.pop()
        return m

    def fresh_input(self, name, kind, term, info):
        if name in self.inputs:
            raise RuntimeError('input declared twice: ' + name)
        self.inputs[name] = (kind, term, info)
        self.order.append(name)

    def values(self, m):
        """Input values under model m, JSON-able."""
        out = {}
        for n in self.order:
            kind, term, info = self.inputs[n]
            if kind == 'choice':
                out[n] = info
                continue
            v = m.eval(term, model_completion=True)
            if kind == 'int' or kind == 'pick':
                out[n] = v.as_long()
            elif kind == 'bool':
                out[n] = z3.is_true(v)
            else:
                q = zval(v)
                out[n] = '%d/%d' % (q.numerator, q.denominator)
        return out

    # -- notes
    def note(self, what):
        self.notes[what] = self.notes.get(what, 0) + 1

    def note_concretised(self, what):
        self.note('concretised: ' + what)


def zval(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(40)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)
