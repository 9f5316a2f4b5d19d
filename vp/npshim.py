"""numpy for symbolic arrays: what the code under test sees as `numpy`.

Functions not handled here run in the real numpy on concrete values (recorded
as a concretisation when an argument was symbolic)."""
import builtins
import types
from fractions import Fraction

import numpy as _np

from . import core
from .core import Num, SB, lift, band, bor, bnot, ite, nmax, nmin, count, tobool, Unsupported, special
from .arr import SArr, LArr, of, mk, obj, arr1, ufunc, cast, kind_of, kind_el, join_k, concrete, wrap, is_sym, DT, ck1

pi = Num('f', v=core.frac(_np.pi))
e = Num('f', v=core.frac(_np.e))
inf = Inf = infty = float('inf')
nan = NaN = NAN = float('nan')
newaxis = None
ndarray = SArr
F0, F1 = Fraction(0), Fraction(1)


def _shape(s):
    if isinstance(s, (tuple, list)) or isinstance(s, SArr):
        return tuple(_ix(x) for x in s)
    return (_ix(s),)


def _ix(x):
    if isinstance(x, float) or isinstance(x, Num) and x.k == 'f':
        raise TypeError("'float' object cannot be interpreted as an integer")
    return x.__index__()


# ---- creation
def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    r = of(x)
    k = kind_of(dtype)
    if k is not None and k != r.k:
        r = of(x, k) if r.a.size == 0 else r.astype_k(k)
    elif r is x or isinstance(x, SArr):
        r = r.copy()
    while r.a.ndim < ndmin:
        r = SArr(r.a[None], r.k)
    return r


def asarray(x, dtype=None, order=None):
    if isinstance(x, SArr) and (dtype is None or kind_of(dtype) == x.k):
        return x
    return array(x, dtype)


asanyarray = ascontiguousarray = asfarray = asarray


def copy(x, order=None):
    return of(x).copy()


def _full(shape, v, k):
    return SArr(obj(_shape(shape), cast(v, k)), k)


def zeros(shape, dtype=float, order=None):
    return _full(shape, 0, kind_of(dtype) or 'f')


def ones(shape, dtype=float, order=None):
    return _full(shape, 1, kind_of(dtype) or 'f')


empty = zeros


def full(shape, v, dtype=None, order=None):
    k = kind_of(dtype) or kind_el(v)
    return _full(shape, v, k)


def zeros_like(a, dtype=None, **k):
    a = of(a)
    return _full(a.shape, 0, kind_of(dtype) or a.k)


def ones_like(a, dtype=None, **k):
    a = of(a)
    return _full(a.shape, 1, kind_of(dtype) or a.k)


empty_like = zeros_like


def full_like(a, v, dtype=None, **k):
    a = of(a)
    return _full(a.shape, v, kind_of(dtype) or a.k)


def eye(n, **k):
    return of(_np.eye(_ix(n)))


def arange(start, stop=None, step=None, dtype=None):
    if stop is None:
        start, stop = 0, start
    if step is None:
        step = 1
    start, stop, step = lift(start), lift(stop), lift(step)
    k = kind_of(dtype) or ('f' if 'f' in (start.k, stop.k, step.k) else 'i')
    ln = core.ceil((stop - start) / step).as_k('i')
    n = builtins.max(0, _arange_len(ln))
    out = obj((n,))
    if core.FLOAT and k == 'f':
        step = (start + step) - start       # as numpy fills it
    for i in range(n):
        out[i] = (start + step * i).as_k(k)
    return SArr(out, k)


def _arange_len(ln):
    if ln.v is not None:
        if special(ln.v):
            raise ValueError('Maximum allowed size exceeded')
        return int(ln.v)
    return int(ln.pin())


def linspace(a, b, num=50, endpoint=True):
    a, b, n = lift(a), lift(b), _ix(num)
    d = n - 1 if endpoint else n
    return SArr(arr1([(a + (b - a) * Fraction(i, builtins.max(d, 1))).as_k('f') for i in range(n)]), 'f')


# ---- elementwise
def _u(fn, k=None):
    def f(*args, **kw):
        out = kw.get('out')
        if out is None and len(args) > fn.__code__.co_argcount:
            out = args[fn.__code__.co_argcount]
            args = args[:fn.__code__.co_argcount]
        r = ufunc(fn, k, *args)
        w = kw.get('where', True)
        if w is not True:
            r = where(w, r, out if out is not None else zeros_like(r))
        if out is not None:
            out[...] = r
            return out
        return r
    return f


def _t(name):
    return _u(lambda x: core.fun(name, x), 'f')


exp, log, log10, sin, cos, tan, sqrt, arctan, arcsin, arccos, log1p, expm1, log2 = [
    _t(n) for n in ('exp', 'log', 'log10', 'sin', 'cos', 'tan', 'sqrt', 'arctan', 'arcsin', 'arccos', 'log1p', 'expm1', 'log2')]
arctan2 = _u(lambda a, b: core.arctan2(a, b), 'f')
hypot = _u(lambda a, b: core.fun('sqrt', lift(a) * a + lift(b) * b), 'f')
floor = _u(lambda x: core.floor(x).as_k('f'), 'f')
ceil = _u(lambda x: core.ceil(x).as_k('f'), 'f')
rint = _u(lambda x: core.rint(x).as_k('f'), 'f')
trunc = fix = _u(lambda x: core.trunc(x).as_k('f'), 'f')
absolute = fabs = _u(lambda x: builtins.abs(lift(x)))
abs = absolute
negative = _u(lambda x: -lift(x))
square = _u(lambda x: lift(x) * lift(x))
sign = _u(lambda x: ite(lift(x) > 0, Num('i', v=F1), ite(lift(x) < 0, Num('i', v=-F1), Num('i', v=F0))).as_k(lift(x).k))
radians = deg2rad = _u(lambda x: lift(x) * (pi / 180), 'f')
degrees = rad2deg = _u(lambda x: lift(x) * (180 / pi), 'f')
add = _u(lambda a, b: bor(a, b) if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)) else lift(a) + lift(b))
subtract = _u(lambda a, b: lift(a) - lift(b))
multiply = _u(lambda a, b: lift(a) * lift(b))
divide = true_divide = _u(lambda a, b: lift(a) / lift(b), 'f')
floor_divide = _u(lambda a, b: lift(a) // lift(b))
mod = remainder = _u(lambda a, b: lift(a) % lift(b))
power = float_power = _u(lambda a, b: lift(a) ** lift(b))
maximum = fmax = _u(lambda a, b: nmax(a, b))
minimum = fmin = _u(lambda a, b: nmin(a, b))
reciprocal = _u(lambda a: 1 / lift(a))


def _b(x):
    r = tobool(x)
    return bool(x) if r is None else r


logical_and = _u(lambda a, b: band(_b(a), _b(b)), 'b')
logical_or = _u(lambda a, b: bor(_b(a), _b(b)), 'b')
logical_not = _u(lambda a: bnot(_b(a)), 'b')
logical_xor = _u(lambda a, b: bnot(_eqb(_b(a), _b(b))), 'b')
bitwise_and = lambda a, b: of(a) & of(b)
bitwise_or = lambda a, b: of(a) | of(b)
invert = bitwise_not = lambda a: ~of(a)


def _eqb(a, b):
    if isinstance(b, SB):
        a, b = b, a
    return a == b


less = lambda a, b: of(a) < b
less_equal = lambda a, b: of(a) <= b
greater = lambda a, b: of(a) > b
greater_equal = lambda a, b: of(a) >= b
equal = lambda a, b: of(a) == b
not_equal = lambda a, b: of(a) != b


def _isf(x, test):
    x = lift(x)
    if x.v is not None:
        return test(x.v)
    if x.f is not None:
        return core.fbool(x.f.sels, _np.frompyfunc(test, 1, 1)(x.f.arr))
    return test(F0)


isnan = _u(lambda x: _isf(x, lambda v: v != v), 'b')
isinf = _u(lambda x: _isf(x, lambda v: v in (float('inf'), -float('inf'))), 'b')
isfinite = _u(lambda x: _isf(x, lambda v: not special(v)), 'b')


def nan_to_num(x, **k):
    x = of(x)
    return where(isnan(x), 0.0, x)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return ufunc(lambda x, y: builtins.abs(lift(x) - lift(y)) <= atol + rtol * builtins.abs(lift(y)), 'b', a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return all_(isclose(a, b, rtol, atol))


def array_equal(a, b):
    a, b = of(a), of(b)
    return a.shape == b.shape and all_(a == b)


def around(x, decimals=0, out=None):
    return ufunc(lambda v: core.roundn(v, _ix(decimals)), None, x)


round_ = around


def clip(a, lo=None, hi=None, out=None):
    r = of(a)
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def where(c, *xy):
    if not xy:
        return nonzero(c)
    x, y = xy
    kx, ky = of(x).k, of(y).k
    k = join_k(kx, ky)
    return ufunc(lambda b, p, q: ite(_b(b), cast(p, k), cast(q, k)), k, c, x, y)


def select(conds, choices, default=0):
    r = of(default)
    for c, v in reversed(builtins.list(zip(conds, choices))):
        r = where(c, v, r)
    return r


def vectorize(f, **k):
    return lambda *a: ufunc(f, None, *a)


# ---- reductions
def _red(fn1, k=None, lz=None):
    """Reduction from a function of a list of elements (lz: of elements and mask)."""
    def f(a, axis=None, out=None, keepdims=False, dtype=None, **kw):
        a = of(a)
        if lz and type(a) is LArr and a.lazy and a.src.ndim == 1 and not keepdims:
            return lz(builtins.list(a.src), a.mask, a.k)
        kk = k if k else a.k
        if axis is None:
            r = fn1(builtins.list(a.a.reshape(-1) if a.a.flags.c_contiguous else a.a.flatten()), a.k)
            return r if not keepdims else SArr(arr1([r]).reshape((1,) * a.ndim), kind_el(r))
        if isinstance(axis, tuple):
            for ax in sorted((x % a.ndim for x in axis), reverse=True):
                a = f(a, ax)
            return a
        axis = _ix(axis) % builtins.max(a.ndim, 1)
        b = _np.moveaxis(a.a, axis, -1)
        o = obj(b.shape[:-1])
        for idx in _np.ndindex(*o.shape):
            o[idx] = fn1(builtins.list(b[idx]), a.k)
        if o.ndim == 0:
            return o.item()
        ke = kind_el(o.reshape(-1)[0]) if o.size else kk
        return SArr(o, ke)
    return f


def _fold(xs, fn):
    r = xs[0]
    for x in xs[1:]:
        r = fn(r, x)
    return r


def _sum(xs, k):
    if k == 'b':
        return count(xs)
    if not xs:
        return Num(k if k in 'fi' else 'f', v=F0)
    if core.ENG is not None and builtins.all(isinstance(x, Num) and x.v is None and x.f is None and x.rng == (0, 1) for x in xs):
        return count([x == 1 for x in xs]).as_k(k)
    # concrete part first, so that finite tables stay small
    c, rest = F0, []
    for x in xs:
        x = lift(x)
        if x.v is not None and not special(x.v):
            c += x.v
        else:
            rest.append(x)
    r = Num(k, v=core.tame(c))
    for x in rest:
        r = r + x
    return r.as_k(k)


def _lsum(xs, ms, k):
    if k == 'b':
        return count([band(m, x) for m, x in zip(ms, xs)])
    return _sum([ite(m, x, 0) for m, x in zip(ms, xs)], k)


def _lext(fn, name):
    def f(xs, ms, k):
        if not builtins.bool(bor(*ms)):
            raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
        r, have = None, False
        for x, m in zip(xs, ms):
            if m is False:
                continue
            if r is None:
                r, have = lift(x), m
            else:
                r = ite(band(m, have), fn(r, lift(x)), ite(m, x, r))
                have = bor(have, m)
        return r.as_k('f' if k == 'f' else 'i')
    return f


def _lmean(xs, ms, k):
    if not builtins.bool(bor(*ms)):
        return Num('f', v=core.NAN)
    return _lsum(xs, ms, k) / count(ms)


sum_ = _red(_sum, lz=_lsum)
sum = nansum = sum_
prod = _red(lambda xs, k: _fold([lift(x) for x in xs], lambda a, b: a * b) if xs else Num('f', v=F1))


def _need(name):
    def f(fn):
        def g(xs, k):
            if not xs:
                raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
            return fn(xs, k)
        return g
    return f


amax = max = nanmax = _red(_need('maximum')(lambda xs, k: bor(*xs) if k == 'b' else _fold(xs, nmax)), lz=_lext(nmax, 'maximum'))
amin = min = nanmin = _red(_need('minimum')(lambda xs, k: band(*xs) if k == 'b' else _fold(xs, nmin)), lz=_lext(nmin, 'minimum'))
any_ = any = _red(lambda xs, k: bor(*[_b(x) for x in xs]), 'b',
                  lambda xs, ms, k: bor(*[band(_b(x), m) for x, m in zip(xs, ms)]))
all_ = all = _red(lambda xs, k: band(*[_b(x) for x in xs]), 'b',
                  lambda xs, ms, k: band(*[bor(_b(x), bnot(m)) for x, m in zip(xs, ms)]))
count_nonzero = _red(lambda xs, k: count([_b(x) for x in xs]), 'i',
                     lambda xs, ms, k: count([band(_b(x), m) for x, m in zip(xs, ms)]))


def _mean(xs, k):
    if not xs:
        return Num('f', v=core.NAN)
    return _sum(xs, 'i' if k == 'b' else k) / len(xs) if k != 'b' else count(xs) / len(xs)


mean = average_ = _red(_mean, 'f', _lmean)


def average(a, axis=None, weights=None, **k):
    if weights is None:
        return mean(a, axis)
    a, w = of(a), of(weights)
    return sum_(a * w, axis) / sum_(w, axis)


def var(a, axis=None, dtype=None, out=None, ddof=0, **k):
    def f(xs, kk):
        m = _mean(xs, kk)
        d = [(lift(x) - m) * (lift(x) - m) for x in xs]
        n = len(xs) - ddof
        s = _sum(d, 'f') if d else Num('f', v=core.NAN)
        return s / n

    def lz(xs, ms, kk):
        if not builtins.bool(bor(*ms)):
            return Num('f', v=core.NAN)
        m = _lmean(xs, ms, kk)
        return _sum([ite(b, (lift(x) - m) * (lift(x) - m), 0) for b, x in zip(ms, xs)], 'f') / (count(ms) - ddof)
    return _red(f, 'f', lz)(a, axis)


def std(a, axis=None, dtype=None, out=None, ddof=0, **k):
    return sqrt(var(a, axis, ddof=ddof))


def median(a, axis=None, **k):
    def f(xs, kk):
        s = sort(SArr(arr1(xs), kk)).a
        n = len(s)
        return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
    return _red(f, 'f')(a, axis)


def percentile(a, q, axis=None, **k):
    def one(a, qq):
        s = sort(of(a).ravel()).a
        pos = core.frac(qq) / 100 * (len(s) - 1)
        i = int(pos)
        fr = pos - i
        return s[i] if fr == 0 else s[i] + (s[i + 1] - s[i]) * Num('f', v=fr)
    if isinstance(q, (list, tuple, SArr)):
        return SArr(arr1([one(a, concrete(x)) for x in q]), 'f')
    return one(a, concrete(q))


def quantile(a, q, axis=None, **k):
    if isinstance(q, (list, tuple, SArr)):
        return percentile(a, [x * 100 for x in q])
    return percentile(a, q * 100)


def ptp(a, axis=None):
    return amax(a, axis) - amin(a, axis)


def _scan(fn):
    def f(a, axis=None, **k):
        a = of(a)
        if axis is None:
            a = a.flatten()
            axis = 0
        b = _np.moveaxis(a.a, axis, 0)
        o = obj(b.shape)
        for i in range(b.shape[0]):
            for idx in _np.ndindex(*b.shape[1:]):
                x = lift(b[(i,) + idx])
                o[(i,) + idx] = x if i == 0 else fn(o[(i - 1,) + idx], x)
        return SArr(_np.moveaxis(o, 0, axis), 'i' if a.k == 'b' else a.k)
    return f


cumsum = _scan(lambda a, b: a + b)
cumprod = _scan(lambda a, b: a * b)


def accumulate_max(a): return _scan(nmax)(a)


maximum.accumulate = lambda a, axis=0: _scan(nmax)(a, axis)
minimum.accumulate = lambda a, axis=0: _scan(nmin)(a, axis)
maximum.reduce = lambda a, axis=0: amax(a, axis)
minimum.reduce = lambda a, axis=0: amin(a, axis)
add.reduce = lambda a, axis=0: sum_(a, axis)
add.accumulate = lambda a, axis=0: cumsum(a, axis)
logical_and.reduce = lambda a, axis=0: all_(a, axis)
logical_or.reduce = lambda a, axis=0: any_(a, axis)


def diff(a, n=1, axis=-1):
    a = of(a)
    for _ in range(n):
        b = _np.moveaxis(a.a, axis, -1)
        x, y = SArr(_np.moveaxis(b[..., 1:], -1, axis), a.k), SArr(_np.moveaxis(b[..., :-1], -1, axis), a.k)
        a = x - y
    return a


def dot(a, b):
    a, b = of(a), of(b)
    if a.ndim == 0 or b.ndim == 0:
        return mk((a * b).a if isinstance(a * b, SArr) else a * b, 'f')
    if a.ndim == 1 and b.ndim == 1:
        return sum_(a * b)
    if b.ndim == 1:
        return SArr(arr1([sum_(mk(r, a.k) * b) for r in a.a]), join_k(a.k, b.k))
    if a.ndim == 1:
        return dot(b.T, a)
    return SArr(_np.array([[sum_(SArr(r, a.k) * SArr(c, b.k)) for c in b.a.T] for r in a.a], dtype=object), join_k(a.k, b.k))


matmul = inner = dot


def outer(a, b):
    a, b = of(a).ravel(), of(b).ravel()
    return SArr(a.a[:, None], a.k) * SArr(b.a[None, :], b.k)


# ---- sorting
def _lt(a, b):
    """a < b, deciding by forking."""
    return bool(_ordlt(a, b))


def _ordlt(a, b):
    if isinstance(a, (bool, SB)) or isinstance(b, (bool, SB)):
        a, b = lift(a), lift(b)
    return a < b


def _heap(v):
    """numpy's aheapsort."""
    n = len(v)
    a = [None] + builtins.list(range(n))
    l = n >> 1
    while l > 0:
        t = a[l]
        i, j = l, l << 1
        while j <= n:
            if j < n and _lt(v[a[j]], v[a[j + 1]]):
                j += 1
            if _lt(v[t], v[a[j]]):
                a[i] = a[j]
                i = j
                j += j
            else:
                break
        a[i] = t
        l -= 1
    m = n
    while m > 1:
        t = a[m]
        a[m] = a[1]
        m -= 1
        i, j = 1, 2
        while j <= m:
            if j < m and _lt(v[a[j]], v[a[j + 1]]):
                j += 1
            if _lt(v[t], v[a[j]]):
                a[i] = a[j]
                i = j
                j += j
            else:
                break
        a[i] = t
    return a[1:]


def _insertion(v):
    a = builtins.list(range(len(v)))
    for i in range(1, len(a)):
        t = a[i]
        j = i
        while j > 0 and _lt(v[t], v[a[j - 1]]):
            a[j] = a[j - 1]
            j -= 1
        a[j] = t
    return a


def argsort1(v, kind=None):
    if len(v) == 0:
        return []
    return _heap(v) if kind == 'heapsort' else _insertion(v)


def argsort(a, axis=-1, kind=None, order=None):
    a = of(a)
    if a.ndim == 1 or axis is None:
        idx = argsort1(builtins.list(a.a.reshape(-1)), kind)
        return SArr(arr1([Num('i', v=Fraction(i)) for i in idx]), 'i')
    b = _np.moveaxis(a.a, axis, -1)
    o = obj(b.shape)
    for ix in _np.ndindex(*b.shape[:-1]):
        o[ix] = arr1([Num('i', v=Fraction(i)) for i in argsort1(builtins.list(b[ix]), kind)])
    return SArr(_np.moveaxis(o, -1, axis), 'i')


def sort(a, axis=-1, kind=None, order=None):
    a = of(a)
    if a.ndim == 1 or axis is None:
        v = builtins.list(a.a.reshape(-1))
        return SArr(sort_elems(v), a.k)
    b = _np.moveaxis(a.a, axis, -1)
    o = obj(b.shape)
    for ix in _np.ndindex(*b.shape[:-1]):
        o[ix] = sort_elems(builtins.list(b[ix]))
    return SArr(_np.moveaxis(o, -1, axis), a.k)


def sort_elems(v):
    """Sorted values by a network of min/max (no forks) when all are finite."""
    if builtins.all(isinstance(x, Num) for x in v) and len(v) <= 6:
        v = builtins.list(v)
        for i in range(len(v)):
            for j in range(len(v) - 1 - i):
                v[j], v[j + 1] = nmin(v[j], v[j + 1]), nmax(v[j], v[j + 1])
        return arr1(v)
    return arr1([v[i] for i in _insertion(v)])


def lexsort(keys, axis=-1):
    keys = [builtins.list(of(k).a) for k in keys][::-1]
    import functools

    def cmp(i, j):
        for k in keys:
            if _lt(k[i], k[j]):
                return -1
            if _lt(k[j], k[i]):
                return 1
        return i - j
    idx = builtins.list(range(len(keys[0])))
    idx.sort(key=functools.cmp_to_key(cmp))
    return SArr(arr1([Num('i', v=Fraction(i)) for i in idx]), 'i')


def _arg(better):
    def f1(xs, k):
        if not xs:
            raise ValueError('attempt to get argmax of an empty sequence')
        best, bi = lift(xs[0]), Num('i', v=F0)
        for i, x in builtins.list(enumerate(xs))[1:]:
            x = lift(x)
            c = better(x, best)
            best = ite(c, x, best)
            bi = ite(c, Num('i', v=Fraction(i)), bi)
        return bi
    return _red(f1, 'i')


argmax = _arg(lambda x, b: x > b)
argmin = _arg(lambda x, b: x < b)


def nonzero(a):
    a = of(a)
    if not (type(a) is LArr and a.lazy) and a.a.ndim == 1:
        m = [_b(x) for x in a.a]
        if builtins.any(isinstance(x, SB) for x in m):
            return (LArr(arr1([Num('i', v=Fraction(i)) for i in builtins.range(len(m))]), m, 'i', pos=True),)
    m = ck1(ufunc(_b, 'b', a)) if a.ndim else _np.array([bool(_b(a.a.item()))])
    return tuple(of(x) for x in _np.nonzero(m))


def flatnonzero(a):
    return nonzero(of(a).ravel())[0]


def argwhere(a):
    return of(_np.argwhere(ck1(ufunc(_b, 'b', of(a)))))


def extract(c, a):
    return of(a).ravel()[of(c).ravel()]


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    a = of(a).ravel()
    v = builtins.list(a.a)
    order = _insertion(v)
    vals, first, inv, cnt = [], [], [0] * len(v), []
    for i in order:
        if vals and not bool(lift(vals[-1]) != lift(v[i])):
            cnt[-1] += 1
        else:
            vals.append(v[i])
            first.append(i)
            cnt.append(1)
        inv[i] = len(vals) - 1
    res = [SArr(arr1(vals), a.k)]
    ints = lambda xs: SArr(arr1([Num('i', v=Fraction(x)) for x in xs]), 'i')
    if return_index:
        res.append(ints(first))
    if return_inverse:
        res.append(ints(inv))
    if return_counts:
        res.append(ints(cnt))
    return res[0] if len(res) == 1 else tuple(res)


def searchsorted(a, v, side='left', sorter=None):
    a = of(a)
    f = (lambda x: count([lift(y) < x for y in a.a])) if side == 'left' else (lambda x: count([lift(y) <= x for y in a.a]))
    return ufunc(lambda x: f(lift(x)), 'i', v)


def digitize(x, bins, right=False):
    return searchsorted(bins, x, 'left' if right else 'right')


def in1d(a, b, **k):
    b = of(b).ravel()
    return ufunc(lambda x: bor(*[lift(x) == y for y in b.a]), 'b', of(a).ravel())


def isin(a, b, **k):
    b = of(b).ravel()
    return ufunc(lambda x: bor(*[lift(x) == y for y in b.a]), 'b', a)


def bincount(x, weights=None, minlength=0):
    x = of(x)
    n = int(concrete(amax(x))) + 1 if x.size else 0
    n = builtins.max(n, _ix(minlength))
    if weights is None:
        return SArr(arr1([count([y == i for y in x.a]) for i in range(n)]), 'i')
    w = of(weights)
    return SArr(arr1([_sum([ite(y == i, ww, 0) for y, ww in zip(x.a, w.a)], 'f') for i in range(n)]), 'f')


# ---- histograms
def _edges(a, bins, rng):
    if isinstance(bins, (SArr, list, tuple, _np.ndarray)):
        return [lift(x) for x in of(bins).a]
    n = _ix(bins)
    if rng is None:
        lo, hi = amin(a), amax(a)
        if bool(lo == hi):
            lo, hi = lo - Fraction(1, 2), hi + Fraction(1, 2)
    else:
        lo, hi = lift(rng[0]), lift(rng[1])
    return builtins.list(linspace(lo, hi, n + 1).a)


def _inbin(x, ed, i):
    last = i == len(ed) - 2
    return band(x >= ed[i], x <= ed[i + 1] if last else x < ed[i + 1])


def histogram(a, bins=10, range=None, weights=None, density=None, normed=None):
    a = of(a).ravel()
    ed = _edges(a, bins, range)
    for i in builtins.range(len(ed) - 1):
        if bool(ed[i] > ed[i + 1]):
            raise ValueError('`bins` must increase monotonically, when an array')
    out = []
    for i in builtins.range(len(ed) - 1):
        bs = [_inbin(lift(x), ed, i) for x in a.a]
        if weights is None:
            out.append(count(bs))
        else:
            out.append(_sum([ite(b, lift(w), 0) for b, w in zip(bs, of(weights).a)], 'f'))
    k = 'i' if weights is None else 'f'
    return SArr(arr1([x.as_k(k) for x in out]), k), SArr(arr1(ed), 'f')


def histogram2d(x, y, bins=10, range=None, weights=None, density=None, normed=None):
    x, y = of(x), of(y)
    if isinstance(bins, (list, tuple)) and len(bins) == 2:
        bx, by = bins
    else:
        bx = by = bins
    ex, ey = _edges(x, bx, range and range[0]), _edges(y, by, range and range[1])
    o = obj((len(ex) - 1, len(ey) - 1))
    inx = [[_inbin(lift(v), ex, i) for v in x.a] for i in builtins.range(len(ex) - 1)]
    iny = [[_inbin(lift(v), ey, j) for v in y.a] for j in builtins.range(len(ey) - 1)]
    for i in builtins.range(len(ex) - 1):
        for j in builtins.range(len(ey) - 1):
            bs = [band(p, q) for p, q in zip(inx[i], iny[j])]
            if weights is None:
                o[i, j] = count(bs).as_k('f')
            else:
                o[i, j] = _sum([ite(b, lift(w), 0) for b, w in zip(bs, of(weights).a)], 'f')
    return SArr(o, 'f'), SArr(arr1(ex), 'f'), SArr(arr1(ey), 'f')


# ---- shapes
def shape(a):
    if isinstance(a, SArr):
        return a.shape
    if isinstance(a, (Num, SB, int, float, bool)):
        return ()
    return of(a).shape


def ndim(a):
    return len(shape(a))


def size(a, axis=None):
    s = shape(a)
    if axis is not None:
        return s[axis]
    n = 1
    for x in s:
        n *= x
    return n


def reshape(a, s, order='C'):
    return of(a).reshape(s)


def ravel(a, order='C'):
    return of(a).ravel()


def transpose(a, axes=None):
    return SArr(of(a).a.transpose(axes), of(a).k)


def squeeze(a, axis=None):
    return of(a).squeeze(axis)


def expand_dims(a, axis):
    return SArr(_np.expand_dims(of(a).a, axis), of(a).k)


def atleast_1d(*a):
    r = [SArr(_np.atleast_1d(of(x).a), of(x).k) for x in a]
    return r[0] if len(r) == 1 else r


def atleast_2d(*a):
    r = [SArr(_np.atleast_2d(of(x).a), of(x).k) for x in a]
    return r[0] if len(r) == 1 else r


def flipud(a):
    a = of(a)
    return SArr(a.a[::-1], a.k)


def fliplr(a):
    a = of(a)
    return SArr(a.a[:, ::-1], a.k)


def flip(a, axis=None):
    a = of(a)
    return SArr(_np.flip(a.a, axis), a.k)


def roll(a, n, axis=None):
    a = of(a)
    return SArr(_np.roll(a.a, _ix(n), axis), a.k)


def _joined(xs):
    xs = [of(x) for x in xs]
    k = None
    for x in xs:
        k = x.k if k is None else join_k(k, x.k)
    return [(x if x.k == k else x.astype_k(k)).a for x in xs], k


def _stk(f):
    def g(xs, *a, **k):
        arrs, kk = _joined(xs)
        k.pop('dtype', None)
        return SArr(f(arrs, *a, **k), kk)
    return g


concatenate, hstack, vstack, column_stack, dstack, stack = [
    _stk(getattr(_np, n)) for n in ('concatenate', 'hstack', 'vstack', 'column_stack', 'dstack', 'stack')]
row_stack = vstack


def append(a, b, axis=None):
    if axis is None:
        return concatenate([of(a).ravel(), of(b).ravel()])
    return concatenate([a, b], axis=axis)


def delete(a, i, axis=None):
    a = of(a)
    if isinstance(i, (SArr, Num)):
        i = concrete(i)
    return SArr(_np.delete(a.a, i, axis), a.k)


def insert(a, i, v, axis=None):
    a = of(a)
    v = of(v, a.k)
    return SArr(_np.insert(a.a, concrete(i), v.a if v.ndim else v.a.item(), axis), a.k)


def tile(a, n):
    return SArr(_np.tile(of(a).a, n), of(a).k)


def repeat(a, n, axis=None):
    return SArr(_np.repeat(of(a).a, concrete(n), axis), of(a).k)


def take(a, i, axis=None):
    if axis in (None, 0) and of(a).ndim == 1:
        return of(a)[i if isinstance(i, SArr) else of(i)]
    return SArr(_np.take(of(a).a, ck1(of(i)), axis), of(a).k)


def compress(c, a, axis=None):
    return of(a)[of(c)]


def split(a, n, axis=0):
    return [SArr(x, of(a).k) for x in _np.split(of(a).a, n, axis)]


def broadcast_to(a, s):
    return SArr(_np.broadcast_to(of(a).a, s), of(a).k)


def meshgrid(*xs, **k):
    return [SArr(x, of(y).k) for x, y in zip(_np.meshgrid(*[of(x).a for x in xs], **k), xs)]


def ix_(*a):
    return _np.ix_(*[concrete(x) for x in a])


def isscalar(x):
    return isinstance(x, (Num, SB)) or _np.isscalar(x)


def interp(x, xp, fp, **k):
    xp, fp = of(xp), of(fp)

    def f(v):
        v = lift(v)
        r = fp.a[0]
        for i in range(len(xp) - 1):
            w = fp.a[i] + (fp.a[i + 1] - fp.a[i]) * ((v - xp.a[i]) / (xp.a[i + 1] - xp.a[i]))
            r = ite(v >= xp.a[i], w, r)
        return ite(v >= xp.a[-1], fp.a[-1], r)
    return ufunc(f, 'f', x)


def trapz(y, x=None, dx=1.0, axis=-1):
    y = of(y)
    d = diff(x) if x is not None else dx
    return sum_((y[1:] + y[:-1]) * d / 2)


# ---- text files
def savetxt(fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', encoding=None):
    from .shims import vp_mod
    X = of(X)
    if X.ndim == 0:
        raise ValueError('Expected 1D or 2D array, got 0D array instead')
    rows = [[x] for x in X.a] if X.ndim == 1 else [builtins.list(r) for r in X.a]
    own = not hasattr(fname, 'write')
    f = open(fname, 'w') if own else fname
    try:
        if header:
            f.write(comments + header + newline)
        for r in rows:
            if isinstance(fmt, (list, tuple)):
                f.write(delimiter.join(vp_mod(ff, x) for ff, x in zip(fmt, r)) + newline)
            elif fmt.count('%') > 1:
                f.write(vp_mod(fmt, tuple(r)) + newline)
            else:
                f.write(delimiter.join(vp_mod(fmt, x) for x in r) + newline)
        if footer:
            f.write(comments + footer + newline)
    finally:
        if own:
            f.close()


def genfromtxt(fname, dtype=float, comments='#', delimiter=None, skip_header=0, usecols=None, unpack=False, **k):
    f = open(fname) if not hasattr(fname, 'read') else fname
    lines = f.read().splitlines()
    if f is not fname:
        f.close()
    rows = []
    for ln in lines[_ix(skip_header) + k.get('skiprows', 0):]:
        if comments:
            ln = ln.split(comments)[0]
        ln = ln.strip()
        if not ln:
            continue
        row = []
        for t in (ln.split(delimiter) if delimiter else ln.split()):
            n = core.ENG.untoken(t)
            if n is None:
                try:
                    n = Num('f', v=core.frac(float(t)))
                except ValueError:
                    n = Num('f', v=core.NAN)
            row.append(n.as_k('f'))
        if usecols is not None:
            row = [row[i] for i in usecols]
        rows.append(row)
    if builtins.len(set(len(r) for r in rows)) > 1:
        raise ValueError('Some errors were detected !')
    a = obj((len(rows), len(rows[0]) if rows else 0))
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            a[i, j] = x
    if not rows:
        return SArr(obj((0,)), 'f')
    a = a.squeeze() if k.get('ndmin', 0) < 2 else a
    if unpack:
        a = a.T
    r = SArr(a, 'f')
    return r if kind_of(dtype) in (None, 'f') else r.astype(dtype)


loadtxt = genfromtxt

# ---- types
float64 = float_ = double = _np.float64
bool_ = bool8 = _np.bool_
int64 = int_ = intp = _np.int64


class _errstate(object):
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


errstate = _errstate


def seterr(**k):
    return {}


class _R(object):
    def __getitem__(self, x):
        return concatenate([atleast_1d(v) for v in (x if isinstance(x, tuple) else (x,))])


r_ = _R()


class _C(object):
    def __getitem__(self, x):
        return column_stack(builtins.list(x))


c_ = _C()


class Random(object):
    """np.random: standard normal variates are fresh symbolic inputs; equal
    seeds give equal sequences."""

    def __init__(self, H=None, seed=None):
        self.H = H
        self.seed(seed)

    def seed(self, seed=None, *a):
        self.prefix, self.n = 'z' if seed is None else 's%s_' % seed, 0

    def _draw(self):
        self.n += 1
        return self.H.variate('%s%d' % (self.prefix, self.n))

    def normal(self, loc=0.0, scale=1.0, size=None):
        loc, scale = of(loc), of(scale)
        if size is None:
            shape = _np.broadcast(loc.a, scale.a).shape
            if shape == ():
                return lift(loc.a.item()) + lift(scale.a.item()) * self._draw()
        else:
            shape = _shape(size)
        a = obj(shape)
        for ix in _np.ndindex(*a.shape):
            a[ix] = self._draw()
        return loc + scale * SArr(a, 'f')

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)

    def randn(self, *s):
        return self.normal(0.0, 1.0, s if s else None)

    def RandomState(self, seed=None):
        return Random(self.H, seed)

    default_rng = RandomState


class Module(types.ModuleType):
    """The module object given to the code under test."""

    def __init__(self, H=None):
        types.ModuleType.__init__(self, 'numpy')
        g = globals()
        for n in g:
            if not n.startswith('__') and n not in ('builtins', 'types', 'core', 'Module', 'Random', '_np'):
                self.__dict__[n] = g[n]
        self.__dict__['round'] = around
        self.__dict__['random'] = Random(H)
        self.__dict__['linalg'] = _np.linalg
        self.__dict__['__version__'] = _np.__version__
        self.__dict__['testing'] = _np.testing

    def __getattr__(self, n):
        v = getattr(_np, n)           # AttributeError as the real numpy
        if callable(v) and not isinstance(v, type):
            return fallback(v, n)
        if isinstance(v, float):
            return lift(v)
        return v


def fallback(f, name):
    def g(*a, **k):
        core.ENG.note('real numpy call: ' + name)
        if is_sym(builtins.list(a)) or is_sym(k):
            core.ENG.note_concretised('np.' + name)
        return wrap(f(*[concrete(x) for x in a], **dict((n, concrete(v)) for n, v in k.items())))
    g.__name__ = name
    return g
