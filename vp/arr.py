"""Arrays of symbolic values, with numpy's semantics (views, broadcasting,
boolean and integer indexing, casting by kind)."""
from fractions import Fraction

import numpy as np

from . import core
from .core import (Num, SB, lift, tobool, band, bor, bnot, ite, nmax, nmin, count, be, Unsupported, frac, special)


class DTMeta(type):
    pass


class DT(object):
    """dtype look-alike."""
    def __init__(self, k):
        self.kind = {'s': 'U'}.get(k, k)
        self.k = k
        self.char = {'f': 'd', 'i': 'l', 'b': '?', 'O': 'O', 's': 'U'}[k]
        self.name = {'f': 'float64', 'i': 'int64', 'b': 'bool', 'O': 'object', 's': 'str'}[k]
        self.itemsize = {'b': 1}.get(k, 8)
        self.names = None

    @property
    def type(self):
        return {'f': np.float64, 'i': np.int64, 'b': np.bool_, 'O': np.object_, 's': np.str_}[self.k]

    def __eq__(self, o):
        try:
            return kind_of(o) == self.k
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "dtype('%s')" % self.name


VFLOAT = VINT = VBOOL = None     # set by shims: the overriding builtin types


def kind_of(t):
    """Our kind letter for a dtype-like object."""
    if t is None:
        return None
    if isinstance(t, DT):
        return t.k
    if t is float or t is VFLOAT:
        return 'f'
    if t is int or t is VINT:
        return 'i'
    if t is bool or t is VBOOL:
        return 'b'
    if t is object:
        return 'O'
    k = np.dtype(t).kind
    if k in 'fc':
        return 'f'
    if k in 'iu':
        return 'i'
    if k == 'b':
        return 'b'
    if k in 'US':
        return 's'
    return 'O'


def cast(x, k):
    """Element x as kind k."""
    if k == 'O':
        return x
    if k == 's':
        return str(x)
    if k == 'b':
        if isinstance(x, (bool, SB)):
            return x
        b = tobool(x)
        if b is None:
            return bool(x)
        return b
    if isinstance(x, str):
        n = core.ENG.untoken(x)
        if n is None:
            n = lift(float(x) if k == 'f' else int(x))
        x = n
    n = lift(x)
    if n is None:
        if x is None and k == 'f':
            return Num('f', v=core.NAN)
        if isinstance(x, SArr) and x.size == 1:
            return cast(x.a.reshape(-1)[0], k)
        if isinstance(x, (SArr, list, tuple, np.ndarray)):
            raise ValueError('setting an array element with a sequence.')
        raise TypeError("float() argument must be a string or a real number, not '%s'" % type(x).__name__)
    if k == 'i':
        return n.trunc()
    return n.as_k('f')


def kind_el(x):
    if isinstance(x, (bool, SB, np.bool_)):
        return 'b'
    if isinstance(x, Num):
        return x.k
    if isinstance(x, (int, np.integer)):
        return 'i'
    if isinstance(x, (float, np.floating, Fraction)):
        return 'f'
    if isinstance(x, str):
        return 's'
    return 'O'


def join_k(a, b):
    if a == b:
        return a
    if 'O' in (a, b):
        return 'O'
    if 's' in (a, b):
        return 's'
    order = 'bif'
    return order[max(order.index(a), order.index(b))]


def obj(shape, fill=None):
    a = np.empty(shape, dtype=object)
    if a.size:
        a.fill(fill)
    return a


def mk(a, k):
    """SArr (or the scalar for 0-d results)."""
    if not isinstance(a, np.ndarray):
        return a
    if a.ndim == 0:
        return a.item()
    return SArr(a, k)


def of(x, k=None):
    """SArr for any array-like."""
    if isinstance(x, SArr):
        return x if k is None or k == x.k else x.astype_k(k)
    if isinstance(x, np.ndarray):
        kk = kind_of(x.dtype)
        out = obj(x.shape)
        fl = out.reshape(-1)
        for i, v in enumerate(x.reshape(-1)):
            fl[i] = cast(v.item() if isinstance(v, np.generic) else v, kk if kk in 'fib' else 'O')
        r = SArr(out, kk)
        return r if k is None or k == kk else r.astype_k(k)
    if isinstance(x, (list, tuple, range)) or hasattr(x, '__next__') is False and isinstance(x, (set, frozenset)):
        return _from_seq(x, k)
    a = obj(())
    kk = kind_el(x)
    a[()] = cast(x, kk)
    r = SArr(a, kk)
    return r if k is None or k == kk else r.astype_k(k)


def _from_seq(x, k):
    x = list(x)
    parts = []
    for e in x:
        if isinstance(e, (SArr, np.ndarray, list, tuple, range)):
            parts.append(of(e))
        else:
            parts.append(e)
    if not parts:
        return SArr(obj((0,)), k or 'f')
    shapes = set(p.a.shape if isinstance(p, SArr) else () for p in parts)
    if len(shapes) != 1:
        if k == 'O':
            a = obj((len(x),))
            for i, e in enumerate(x):
                a[i] = e
            return SArr(a, 'O')
        raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
    kk = None
    for p in parts:
        pk = p.k if isinstance(p, SArr) else kind_el(p)
        if isinstance(p, SArr) and p.size == 0:
            pk = p.k
        kk = pk if kk is None else join_k(kk, pk)
    kk = k or kk
    sh = shapes.pop()
    a = obj((len(parts),) + sh)
    for i, p in enumerate(parts):
        if isinstance(p, SArr):
            if sh == ():
                a[i] = cast(p.a.item(), kk)
            else:
                src, dst = p.a.reshape(-1), a[i].reshape(-1)
                for j in range(src.size):
                    dst[j] = cast(src[j], kk)
        else:
            a[i] = cast(p, kk)
    return SArr(a, kk)


def ck(key):
    """A key usable on the object array: symbolic parts are decided by forking."""
    if isinstance(key, tuple):
        out = []
        for k in key:
            k = ck1(k)
            out.append(k)
        return tuple(out)
    return ck1(key)


def ck1(k):
    if isinstance(k, SArr):
        if k.a.ndim == 0:
            return ck1(k.a.item())
        if k.k == 'b':
            out = np.zeros(k.a.shape, dtype=bool)
            o, s = out.reshape(-1), k.a.reshape(-1)
            for i in range(s.size):
                o[i] = bool(s[i])
            return out
        if k.k == 'f' and k.size:
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        out = np.zeros(k.a.shape, dtype=int)
        o, s = out.reshape(-1), k.a.reshape(-1)
        for i in range(s.size):
            o[i] = s[i].__index__()
        return out
    if isinstance(k, SB):
        return bool(k)
    if isinstance(k, Num):
        if k.k == 'f':
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and '
                             'integer or boolean arrays are valid indices')
        return k.__index__()
    if isinstance(k, slice):
        f = lambda x: x if x is None else x.__index__()
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, list):
        return ck1(of(k)) if k else []
    if isinstance(k, float):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and '
                         'integer or boolean arrays are valid indices')
    return k


def ufunc(fn, k, *args):
    """Broadcast fn over the elements; k: result kind, or None: from elements."""
    xs = [of(a) for a in args]
    lz = [x for x in xs if type(x) is LArr and x.lazy]
    if lz:
        l0 = lz[0]
        if l0.src.ndim == 1 and all((x.src.ndim == 1 and samemask(x.mask, l0.mask)) if type(x) is LArr and x.lazy
                                    else x.a.ndim == 0 for x in xs):
            r = ufunc(fn, k, *[SArr(x.src, x.k) if type(x) is LArr and x.lazy else x for x in xs])
            return LArr(r.a, l0.mask, r.k)
    if all(x.a.ndim == 0 for x in xs):
        r = fn(*[x.a.item() for x in xs])
        return r if k is None else cast(r, k)
    bs = np.broadcast_arrays(*[x.a for x in xs])
    out = obj(bs[0].shape)
    fl = out.reshape(-1)
    its = [b.reshape(-1) if b.flags.c_contiguous else b.flatten() for b in bs]
    for i in range(fl.size):
        fl[i] = fn(*[t[i] for t in its])
    if k is None:
        k = 'i'
        ks = set(x.k for x in xs)
        if 'O' in ks:
            k = 'O'
        elif 'f' in ks:
            k = 'f'
        if fl.size:
            kk = kind_el(fl[0])
            for v in fl[1:]:
                kk = join_k(kk, kind_el(v))
            k = kk if kk in 'fO' or k != 'f' else 'f'
    if k in 'fi':
        for i in range(fl.size):
            fl[i] = cast(fl[i], k)
    return SArr(out, k)


import operator as _op


def _arith(op):
    def f(a, b):
        if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
            if op is _op.add:
                return bor(a, b)
            if op is _op.mul:
                return band(a, b)
            if op is _op.sub:
                raise TypeError('numpy boolean subtract, the `-` operator, is not supported')
        if isinstance(a, (bool, SB)):
            a = lift(a)
        if isinstance(b, (bool, SB)):
            b = lift(b)
        return op(a, b)
    return f


def _cmp(op):
    def f(a, b):
        if isinstance(a, (bool, SB)):
            a = lift(a)
        if isinstance(b, (bool, SB)):
            b = lift(b)
        return op(a, b)
    return f


class SArr(object):
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, a, k):
        self.a = a
        self.k = k

    # -- shape
    @property
    def shape(self): return self.a.shape
    @shape.setter
    def shape(self, s): self.a.shape = s
    @property
    def ndim(self): return self.a.ndim
    @property
    def size(self): return self.a.size
    @property
    def dtype(self): return DT(self.k)
    @property
    def T(self): return SArr(self.a.T, self.k)
    @property
    def real(self): return self
    @property
    def flat(self): return iter(self.a.flat)
    @property
    def base(self): return None
    @property
    def flags(self): return self.a.flags
    @property
    def nbytes(self): return self.a.size * 8

    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError('len() of unsized object')
        return self.a.shape[0]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def flatten(self, order='C'): return SArr(self.a.flatten(order), self.k)
    def ravel(self, order='C'): return SArr(self.a.ravel(order), self.k)
    def transpose(self, *ax): return SArr(self.a.transpose(*ax), self.k)
    def squeeze(self, axis=None): return mkarr(self.a.squeeze(axis), self.k)
    def swapaxes(self, a, b): return SArr(self.a.swapaxes(a, b), self.k)
    def copy(self, order='C'): return SArr(self.a.copy(), self.k)
    def view(self, *a): return SArr(self.a.view(), self.k)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()

    def reshape(self, *s, **kw):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return SArr(self.a.reshape(tuple(int(x) for x in s)), self.k)

    def astype(self, t, **kw):
        return self.astype_k(kind_of(t))

    def astype_k(self, k):
        out = obj(self.a.shape)
        o, s = out.reshape(-1), self.a.reshape(-1) if self.a.flags.c_contiguous else self.a.flatten()
        for i in range(s.size):
            o[i] = cast(s[i], k)
        return SArr(out, k)

    def tolist(self):
        if self.a.ndim == 0:
            return self.a.item()
        return [x.tolist() if isinstance(x, SArr) else x for x in self]

    def item(self, *i):
        if i:
            return self.a.item(*i)
        if self.a.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self.a.reshape(-1)[0]

    def fill(self, v):
        v = cast(v, self.k)
        self.a.fill(v)

    def resize(self, *a): raise Unsupported('resize')

    # -- indexing
    def __getitem__(self, key):
        if isinstance(key, SArr) and key.k == 'i' and key.a.ndim == 1 and self.a.ndim == 1 and \
                self.k in 'fib' and any(isinstance(x, Num) and x.v is None for x in key.a):
            return SArr(arr1([self.lookup(x) for x in key.a]), self.k)
        if isinstance(key, Num) and key.v is None and key.k == 'i' and self.a.ndim == 1 and self.k in 'fib':
            return self.lookup(key)
        if type(key) is LArr and key.lazy:
            m = key.asmask(self.a.shape[0] if self.a.ndim else -1)
            if m is not None:
                return LArr(self.a.copy(), m, self.k)
        elif isinstance(key, SArr) and key.k == 'b' and key.a.ndim == 1 and self.a.ndim >= 1 and \
                key.a.shape[0] == self.a.shape[0] and any(isinstance(x, SB) for x in key.a) and not eager(key):
            return LArr(self.a.copy(), list(key.a), self.k)
        elif isinstance(key, tuple) and len(key) == 2 and self.a.ndim == 2 and isinstance(key[0], SArr) and \
                isinstance(key[1], (int, Num, slice)) and (key[0].k == 'b' or type(key[0]) is LArr):
            r = self[key[0]]
            if type(r) is LArr and r.lazy:
                return r[:, key[1]]
        r = self.a[ck(key)]
        if isinstance(r, np.ndarray):
            if r.ndim == 0 and not isinstance(key, tuple):
                return r.item() if not (key is Ellipsis) else SArr(r, self.k)
            return SArr(r, self.k)
        return r

    def lookup(self, i):
        """Element at a symbolic index, as an ITE over the positions."""
        if i.v is not None:
            return self.a[int(i.v)]
        n = self.a.shape[0]
        if bool(band(i >= -n, i < n)) is False:
            raise IndexError('index is out of bounds for axis 0 with size %d' % n)
        rg = core.irange(i)
        cands = [j for j in range(-n, n) if rg is None or rg[0] <= j <= rg[1]]
        if i.fin() and i.f is not None:
            vals = [self.a[j] for j in range(n)]
            if all(isinstance(v, Num) and v.v is not None for v in vals):
                r = core.fmap(lambda x: vals[int(x)].v if -n <= x < n else vals[0].v, (i,), self.k)
                return core.mkfactor(r[0], r[1], self.k)
            dom = sorted(set(int(x) for x in i.f.arr.flat))
            cands = [j for j in cands if j in dom]
        if not cands:
            return self.a[0]
        if len(cands) > 64:
            return self.a[i.__index__()]
        if rg is None and not i.f and bool(i < 0) is False:
            cands = [j for j in cands if j >= 0]
        r = self.a[cands[-1]]
        for j in reversed(cands[:-1]):
            r = ite(i == j, self.a[j], r)
        return r

    def __setitem__(self, key, val):
        mask = None
        if type(key) is LArr and key.lazy:
            m = key.asmask(self.a.shape[0] if self.a.ndim else -1)
            if m is not None:
                key = SArr(arr1(m), 'b')
        elif isinstance(key, tuple) and key and type(key[0]) is LArr and key[0].lazy:
            m = key[0].asmask(self.a.shape[0])
            if m is not None:
                key = (SArr(arr1(m), 'b'),) + key[1:]
        if type(val) is LArr and val.lazy and val.src.ndim == 1 and self.a.ndim == 1 and isinstance(key, SArr) and \
                key.k == 'b' and samemask(list(key.a), val.mask) and self.k in 'fib':
            for i in range(self.a.shape[0]):
                self.a[i] = ite(key.a[i], cast(val.src[i], self.k), self.a[i])
            return
        if isinstance(key, SArr) and key.k == 'b' and any(isinstance(x, SB) for x in key.a.flat):
            mask, rest = key, ()
        elif isinstance(key, tuple) and key and sum(isinstance(x, SArr) for x in key) == 1:
            # a[mask, j] = scalar with a symbolic mask on the first axis
            if isinstance(key[0], SArr) and key[0].k == 'b' and key[0].a.ndim == 1 and \
                    any(isinstance(x, SB) for x in key[0].a) and len(key) == 2:
                v = of(val)
                if v.a.size == 1 and self.k in 'fib':
                    j = ck1(key[1])
                    if isinstance(j, int):
                        col = self.a[:, j]
                        x = cast(v.a.reshape(-1)[0], self.k)
                        for i in range(col.shape[0]):
                            col[i] = ite(key[0].a[i], x, col[i])
                        return
        if mask is not None and self.k in 'fib':
            v = of(val)
            if v.a.size == 1:
                x = cast(v.a.reshape(-1)[0], self.k)
                if mask.a.shape == self.a.shape:
                    for idx in np.ndindex(*self.a.shape):
                        self.a[idx] = ite(mask.a[idx], x, self.a[idx])
                    return
                if mask.a.ndim < self.a.ndim and mask.a.shape == self.a.shape[:mask.a.ndim]:
                    for idx in np.ndindex(*self.a.shape):
                        self.a[idx] = ite(mask.a[idx[:mask.a.ndim]], x, self.a[idx])
                    return
        key = ck(key)
        if isinstance(val, (SArr, list, tuple, np.ndarray)):
            v = of(val)
            tgt = self.a[key]
            if not isinstance(tgt, np.ndarray):
                if v.a.size != 1:
                    raise ValueError('setting an array element with a sequence.')
                self.a[key] = cast(v.a.reshape(-1)[0], self.k)
                return
            if v.k != self.k:
                v = v.astype_k(self.k)
            # numpy's own rules decide whether the shapes fit
            boolkey = [x for x in (key if isinstance(key, tuple) else (key,))
                       if isinstance(x, np.ndarray) and x.dtype == bool]
            if boolkey and not isinstance(key, tuple) and v.a.ndim > 0 and boolkey[0].ndim == self.a.ndim:
                probe = np.zeros(self.a.shape)
                probe[key] = np.zeros(v.a.shape)      # raises as numpy would
                self.a[key] = v.a if v.a.ndim <= 1 else v.a.reshape(-1) if v.a.size == tgt.size else v.a
                return
            self.a[key] = v.a if v.a.ndim else v.a.item()
            return
        x = cast(val, self.k)
        tgt = self.a[key]
        if isinstance(tgt, np.ndarray):
            h = obj(())
            h[()] = x
            self.a[key] = h
        else:
            self.a[key] = x

    # -- operators
    def _bo(self, o, fn, k=None, rev=False):
        if isinstance(o, (str, type(None))) and self.k != 'O':
            return NotImplemented
        if isinstance(o, (list, tuple, np.ndarray, SArr)) or kind_el(o) != 'O':
            o = of(o)
            return ufunc(fn, k, o, self) if rev else ufunc(fn, k, self, o)
        return NotImplemented

    def __add__(self, o): return self._bo(o, _arith(_op.add))
    def __radd__(self, o): return self._bo(o, _arith(_op.add), rev=True)
    def __sub__(self, o): return self._bo(o, _arith(_op.sub))
    def __rsub__(self, o): return self._bo(o, _arith(_op.sub), rev=True)
    def __mul__(self, o): return self._bo(o, _arith(_op.mul))
    def __rmul__(self, o): return self._bo(o, _arith(_op.mul), rev=True)
    def __truediv__(self, o): return self._bo(o, _arith(_op.truediv), 'f')
    def __rtruediv__(self, o): return self._bo(o, _arith(_op.truediv), 'f', rev=True)
    def __floordiv__(self, o): return self._bo(o, _arith(_op.floordiv))
    def __rfloordiv__(self, o): return self._bo(o, _arith(_op.floordiv), rev=True)
    def __mod__(self, o): return self._bo(o, _arith(_op.mod))
    def __rmod__(self, o):
        return NotImplemented if isinstance(o, str) else self._bo(o, _arith(_op.mod), rev=True)
    def __pow__(self, o): return self._bo(o, _arith(_op.pow))
    def __rpow__(self, o): return self._bo(o, _arith(_op.pow), rev=True)
    def __matmul__(self, o):
        from . import npshim
        return npshim.dot(self, o)
    def __neg__(self): return ufunc(lambda x: -lift(x), None, self)
    def __pos__(self): return self.copy()
    def __abs__(self): return ufunc(abs, None, self)

    def _inplace(self, o, fn):
        r = fn(self, of(o))
        if r.k == 'f' and self.k in 'ib':
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        r = r if r.k == self.k else r.astype_k(self.k)
        if type(self) is LArr and self.lazy and type(r) is LArr and r.lazy and samemask(r.mask, self.mask):
            self.src[...], self.pos = r.src, False
            return self
        self.a[...] = r.a
        return self

    def __iadd__(self, o): return self._inplace(o, _op.add)
    def __isub__(self, o): return self._inplace(o, _op.sub)
    def __imul__(self, o): return self._inplace(o, _op.mul)
    def __itruediv__(self, o): return self._inplace(o, _op.truediv)
    def __ipow__(self, o): return self._inplace(o, _op.pow)
    def __iand__(self, o): return self._inplace(o, _op.and_)
    def __ior__(self, o): return self._inplace(o, _op.or_)
    def __ixor__(self, o): return self._inplace(o, _op.xor)
    def __ifloordiv__(self, o): return self._inplace(o, _op.floordiv)
    def __imod__(self, o): return self._inplace(o, _op.mod)

    def __lt__(self, o): return self._bo(o, _cmp(_op.lt), 'b')
    def __le__(self, o): return self._bo(o, _cmp(_op.le), 'b')
    def __gt__(self, o): return self._bo(o, _cmp(_op.gt), 'b')
    def __ge__(self, o): return self._bo(o, _cmp(_op.ge), 'b')

    def __eq__(self, o):
        if isinstance(o, str) or o is None:
            return ufunc(lambda x: False if not isinstance(x, str) else x == o, 'b', self)
        if isinstance(o, (list, tuple, np.ndarray, SArr)) or kind_el(o) != 'O':
            o = of(o)
            try:
                np.broadcast_shapes(self.a.shape, o.a.shape)
            except ValueError:
                return False
            return ufunc(_cmp(_op.eq), 'b', self, o)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SArr) else bnot(r)

    def _bit(self, o, fb, fi):
        o = of(o)
        if self.k == 'b' and o.k == 'b':
            return ufunc(fb, 'b', self, o)
        return ufunc(lambda a, b: Num('i', v=Fraction(fi(a.__index__(), b.__index__()))), 'i', self, o)

    def __and__(self, o): return self._bit(o, band, _op.and_)
    __rand__ = __and__
    def __or__(self, o): return self._bit(o, bor, _op.or_)
    __ror__ = __or__
    def __xor__(self, o): return self._bit(o, lambda a, b: bnot(_beq(a, b)), _op.xor)
    def __invert__(self):
        if self.k == 'b':
            return ufunc(bnot, 'b', self)
        return ufunc(lambda x: -1 - lift(x), 'i', self)

    # -- conversion
    def __bool__(self):
        if self.a.size == 1:
            return bool(self.a.reshape(-1)[0])
        if self.a.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def _one(self):
        if self.a.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return lift(self.a.reshape(-1)[0])

    def __float__(self): return float(self._one())
    def __int__(self): return int(self._one())

    def __index__(self):
        if self.a.ndim == 0 or self.a.size == 1 and self.k == 'i':
            return self._one().__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __contains__(self, x):
        return bool(bor(*[e == x for e in self.a.flat]))

    def __repr__(self):
        return 'array(%s)' % (self.tolist(),)

    __str__ = __repr__

    def __format__(self, spec):
        return str(self)

    def __array__(self, dtype=None, copy=None):
        """For real libraries: concrete values (under-approximation if symbolic)."""
        return concrete(self)

    # -- reductions and friends live in npshim
    def _n(self):
        from . import npshim
        return npshim

    def sum(self, axis=None, **k): return self._n().sum_(self, axis, **k)
    def prod(self, axis=None, **k): return self._n().prod(self, axis, **k)
    def min(self, axis=None, **k): return self._n().amin(self, axis, **k)
    def max(self, axis=None, **k): return self._n().amax(self, axis, **k)
    def mean(self, axis=None, **k): return self._n().mean(self, axis, **k)
    def std(self, axis=None, **k): return self._n().std(self, axis, **k)
    def var(self, axis=None, **k): return self._n().var(self, axis, **k)
    def cumsum(self, axis=None, **k): return self._n().cumsum(self, axis, **k)
    def any(self, axis=None, **k): return self._n().any_(self, axis, **k)
    def all(self, axis=None, **k): return self._n().all_(self, axis, **k)
    def argsort(self, axis=-1, kind=None, order=None): return self._n().argsort(self, axis, kind)
    def sort(self, axis=-1, kind=None, order=None):
        self.a[...] = self._n().sort(self, axis, kind).a
    def argmax(self, axis=None, **k): return self._n().argmax(self, axis, **k)
    def argmin(self, axis=None, **k): return self._n().argmin(self, axis, **k)
    def nonzero(self): return self._n().nonzero(self)
    def round(self, decimals=0, out=None): return self._n().around(self, decimals)
    def dot(self, o): return self._n().dot(self, o)
    def take(self, i, axis=None): return self[i] if axis in (None, 0) else self._n().take(self, i, axis)
    def clip(self, lo=None, hi=None): return self._n().clip(self, lo, hi)
    def ptp(self): return self.max() - self.min()
    def repeat(self, n, axis=None): return SArr(self.a.repeat(n, axis), self.k)
    def compress(self, c, axis=None): return self[of(c)]
    def searchsorted(self, v, side='left'): return self._n().searchsorted(self, v, side)


def samemask(a, b):
    if a is b:
        return True
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is y:
            continue
        if isinstance(x, SB) and isinstance(y, SB):
            if not x.e.eq(y.e):
                return False
        elif isinstance(x, SB) or isinstance(y, SB) or x != y:
            return False
    return True


class LArr(SArr):
    """The rows of src whose mask holds; which ones is decided only when needed."""

    def __init__(self, src, mask, k, pos=False):
        self.src, self.mask, self.k, self.pos = src, list(mask), k, pos
        self._a = None

    @property
    def lazy(self):
        return self._a is None

    @property
    def a(self):
        if self._a is None:
            keep = np.array([bool(m) for m in self.mask], dtype=bool)
            self._a = self.src[keep]
        return self._a

    @a.setter
    def a(self, v):
        self._a = v

    def n(self):
        return core.count(self.mask)

    def asmask(self, n):
        """Boolean mask equivalent to this as an index into n rows."""
        if self.pos and self.src.shape[0] == n:
            return self.mask
        if self.k == 'b' and self.src.shape[0] != n:
            return None
        return None

    @property
    def shape(self):
        if self._a is not None:
            return self._a.shape
        return (int(self.n().pin()),) + self.src.shape[1:]

    @property
    def ndim(self): return self.src.ndim if self._a is None else self._a.ndim

    @property
    def size(self):
        n = 1
        for x in self.shape:
            n *= x
        return n

    def __len__(self):
        return self.shape[0]

    def copy(self, order='C'):
        if self._a is None:
            return LArr(self.src.copy(), self.mask, self.k, self.pos)
        return SArr(self._a.copy(), self.k)

    def flatten(self, order='C'):
        return self.copy() if self.ndim == 1 else SArr(self.a.flatten(), self.k)
    ravel = flatten

    def astype_k(self, k):
        if self._a is None:
            return LArr(SArr(self.src, self.k).astype_k(k).a, self.mask, k, self.pos and k == 'i')
        return SArr.astype_k(self, k)

    def __getitem__(self, key):
        if self._a is None:
            if self.src.ndim == 1 and isinstance(key, (int, np.integer, Num)) and not isinstance(key, bool):
                i = key if not isinstance(key, Num) else (int(key.v) if key.v is not None and key.k == 'i' else None)
                if i in (0, -1):
                    if not bool(core.bor(*self.mask)):
                        raise IndexError('index %d is out of bounds for axis 0 with size 0' % i)
                    js = list(range(self.src.shape[0]))
                    if i == -1:
                        js.reverse()
                    js = [j for j in js if self.mask[j] is not False]
                    if all(lift(self.src[j]) is not None for j in js):
                        r = self.src[js[-1]]
                        for j in reversed(js[:-1]):
                            r = ite(self.mask[j], self.src[j], r)
                        return r
            if self.src.ndim == 2 and isinstance(key, tuple) and len(key) == 2 and isinstance(key[0], slice) and \
                    key[0] == slice(None) and isinstance(key[1], (int, Num, slice)):
                return LArr(self.src[:, ck1(key[1])], self.mask, self.k)
            if isinstance(key, slice) and key == slice(None):
                return LArr(self.src, self.mask, self.k, self.pos)
            if type(key) is LArr and key.lazy and key.k == 'b' and samemask(key.mask, self.mask):
                return LArr(self.src.copy(), [band(m, b) for m, b in zip(self.mask, key.src)], self.k, self.pos)
        return SArr.__getitem__(self, key)


def eager(mask):
    """Scenario option: fork on every element of a mask; the array then holds the decisions."""
    if core.EAGER:
        for i, x in enumerate(mask.a):
            if isinstance(x, SB):
                mask.a[i] = bool(x)
    return core.EAGER


def mkarr(a, k):
    return SArr(a, k)


def _beq(a, b):
    if isinstance(a, SB):
        return a == b
    if isinstance(b, SB):
        return b == a
    return a == b


def arr1(xs):
    a = obj((len(xs),))
    for i, x in enumerate(xs):
        a[i] = x
    return a


def is_sym(x):
    if isinstance(x, SB):
        return True
    if isinstance(x, Num):
        return x.v is None
    if type(x) is LArr and x.lazy:
        return True
    if isinstance(x, SArr):
        return any(is_sym(e) for e in x.a.flat)
    if isinstance(x, (list, tuple)):
        return any(is_sym(e) for e in x)
    if isinstance(x, dict):
        return any(is_sym(e) for e in x.values())
    return False


def concrete(x):
    """Plain Python/numpy value for a real library (recorded when symbolic)."""
    if isinstance(x, SB):
        return bool(x)
    if isinstance(x, Num):
        if x.v is None:
            core.ENG.note_concretised('library call')
        v = x.pin()
        if special(v):
            return v
        return int(v) if x.k == 'i' else float(v)
    if isinstance(x, SArr):
        t = {'f': float, 'i': int, 'b': bool}.get(x.k, object)
        out = np.empty(x.a.shape, dtype=t)
        for idx in np.ndindex(*x.a.shape):
            e = x.a[idx]
            out[idx] = concrete(e) if t is not object else e
        return out
    if isinstance(x, list):
        return [concrete(e) for e in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(concrete(e) for e in x)
    if isinstance(x, dict):
        return dict((k, concrete(v)) for k, v in x.items())
    if isinstance(x, DT):
        return x.type
    return x


def wrap(x):
    """Result of a real library back into our values."""
    if isinstance(x, np.ndarray):
        return of(x) if kind_of(x.dtype) in 'fib' else x
    if isinstance(x, np.generic):
        if isinstance(x, np.bool_):
            return bool(x)
        return lift(x) if lift(x) is not None else x
    if type(x) is tuple:
        return tuple(wrap(e) for e in x)
    if type(x) is list:
        return [wrap(e) for e in x]
    return x
