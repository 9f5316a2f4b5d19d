"""The harness a check body is written against.  The same body runs
symbolically (SymH) and, for replay, on the real code with plain numbers
(ConcH)."""
import importlib
import json
import math
import os
import shutil
import sys
import tempfile
from fractions import Fraction


class Stop(BaseException):
    """Ends a concrete run (assumption not met)."""


def scen(name, body, **kw):
    """A scenario of a check: body(H) with parameters in H.p."""
    return {'name': name, 'body': body, 'p': kw.pop('p', {}), 'covers': kw.pop('covers', []),
            'witnesses': kw.pop('witnesses', 4), 'bounds': kw.pop('bounds', ''), 'opts': kw}


class Common(object):
    TOL = 1e-6

    def call(self, f, *a, **k):
        """(result, None) or (None, exception)."""
        try:
            return f(*a, **k), None
        except Exception as x:
            self.guard(x)
            return None, x

    def variate(self, name):
        """A standard normal variate drawn by the code, in order of drawing."""
        draws = self.draws
        if name not in self._vals:
            k, free = len(self._vals), self.p.get('draw_free')
            self._vals[name] = self.draw(name) if free is None or k < free else self.num(((k * 7) % 13 - 6) / 4.0)
        draws.append(name)
        return self._vals[name]

    @property
    def draws(self):
        """Names of the variates drawn so far."""
        if not hasattr(self, '_draws'):
            self._draws, self._vals = [], {}
        return self._draws

    def drawn(self, i):
        return self._vals[self.draws[i]]

    def eq(self, a, b, label, tol=None):
        """Numbers, or arrays of the same shape, agree up to tol."""
        la, lb = self.flat(a), self.flat(b)
        sa, sb_ = self.shape(a), self.shape(b)
        if sa != sb_:
            self.check(False, label + ' [shape %s, expected %s]' % (sa, sb_))
            return
        self.check(self.And(*[self.close(x, y, tol) for x, y in zip(la, lb)]), label)

    def shape(self, a):
        return tuple(getattr(a, 'shape', None) if getattr(a, 'shape', None) is not None else
                     self.np.shape(a))

    def flat(self, a):
        if hasattr(a, 'flatten') and self.shape(a) != ():
            return list(a.flatten())
        if isinstance(a, (list, tuple)):
            return [y for x in a for y in self.flat(x)]
        return [a]

    def same(self, a, b):
        """Condition: a and b are equal values (text, numbers, None, nested)."""
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return self.And(*[self.same(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return False
            return self.And(*[self.same(a[k], b[k]) for k in a])
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return isinstance(a, str) and isinstance(b, str) and a == b if a is not None and b is not None else a is b
        return self.eqv(a, b)

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        return self.And(self.Implies(a, b), self.Implies(b, a))

    def rows(self, m):
        """List of lists of a 2-d array."""
        return [list(r) for r in m]

    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='vp-', dir=os.environ.get('VP_SCRATCH'))
        return self._tmp

    def cleanup(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def write(self, name, text):
        p = os.path.join(self.tmp(), name)
        with open(p, 'w') as f:
            f.write(text)
        return p

    def read(self, name):
        with open(os.path.join(self.tmp(), name)) as f:
            return f.read()

    def median_mag(self, area, rake):
        self.median_calls.append((area, rake))
        return self.median_value

    def reals(self, name, n, lo=None, hi=None):
        return [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]

    def ints(self, name, n, lo, hi):
        return [self.int('%s%d' % (name, i), lo, hi) for i in range(n)]

    def make_tree(self, states):
        """Directories (1) and files (2) below tmp()."""
        for n in sorted(states):
            p = os.path.join(self.tmp(), n)
            if states[n] == 1:
                os.mkdir(p)
            elif states[n] == 2:
                with open(p, 'w') as f:
                    f.write('as it was\n')

    def listing(self):
        """What is below tmp(): path -> 1 directory, 2 file as it was, 3 anything else."""
        out = {}
        for path, dirs, files in os.walk(self.tmp()):
            for d in dirs:
                out[os.path.relpath(os.path.join(path, d), self.tmp())] = 1
            for f in files:
                p = os.path.join(path, f)
                with open(p) as g:
                    out[os.path.relpath(p, self.tmp())] = 2 if g.read() == 'as it was\n' else 3
        return out

    def main(self, *argv):
        """Runs main.py as a program in tmp() with these arguments; the
        exception it ended with, if any (also SystemExit)."""
        old, cwd, out, err = sys.argv, os.getcwd(), sys.stdout, sys.stderr
        null = open(os.devnull, 'w')
        sys.argv = ['main.py'] + list(argv)
        sys.stdout = sys.stderr = null
        os.chdir(self.tmp())
        try:
            self.run_main()
            return None
        except SystemExit as x:
            return x
        except Exception as x:
            self.guard(x)
            return x
        finally:
            sys.argv, sys.stdout, sys.stderr = old, out, err
            os.chdir(cwd)
            null.close()

    def distinct(self, xs):
        for i in range(len(xs)):
            for j in range(i):
                self.assume(xs[i] != xs[j])


class SymH(Common):
    symbolic = True

    def __init__(self, eng, sc, tree, tier='quick'):
        from . import core, arr, npshim, loader
        import z3
        self.z3, self.core, self.arrm, self.np = z3, core, arr, npshim
        self.eng, self.sc, self.p, self.tier = eng, sc, sc['p'], tier
        core.set_float(self.p.get('float'))
        core.EAGER = bool(self.p.get('eager'))
        eng.unit_tokens = bool(self.p.get('unit_tokens'))
        self.candidates, self.covered, self.nchecks, self.discharged = [], {}, 0, 0
        self.labels = {}
        self.inconclusive = []
        self._tmp = None
        self._now = 2024
        self.median_calls, self.median_value = [], None
        self.ndraw = 0
        self.reg = loader.Registry(tree, self)
        self.random = self.reg.mods['numpy'].random

    # -- inputs
    def real(self, name, lo=None, hi=None):
        core, z3 = self.core, self.z3
        e = z3.Real(name)
        self.eng.fresh_input(name, 'real', e, None)
        cs = []
        if lo is not None:
            cs.append(e >= core.rv(core.frac(lo)))
        if hi is not None:
            cs.append(e <= core.rv(core.frac(hi)))
        for c in cs:
            self.eng.add(c)
        if cs and self.eng.model is not None:
            self.eng.model = None
        return core.Num('f', e=e)

    def int(self, name, lo=None, hi=None):
        core, z3 = self.core, self.z3
        e = z3.Int(name)
        self.eng.fresh_input(name, 'int', e, None)
        for c in ([e >= lo] if lo is not None else []) + ([e <= hi] if hi is not None else []):
            self.eng.add(c)
        self.eng.model = None
        rng = (lo, hi) if lo is not None and hi is not None else None
        return core.Num('i', e=e, rng=rng if rng and rng[1] - rng[0] <= 400 else None)

    def bool(self, name):
        e = self.z3.Bool(name)
        self.eng.fresh_input(name, 'bool', e, None)
        return self.core.SB(e)

    def choice(self, name, options):
        i = self.eng.choose(len(options))
        self.eng.fresh_input(name, 'choice', None, i)
        return options[i]

    def _sel(self, name, n):
        core = self.core
        e = self.z3.Int(name)
        self.eng.fresh_input(name, 'pick', e, None)
        self.eng.add(self.z3.And(e >= 0, e < n))
        self.eng.model = None
        return self.eng.selector(e, (0, n - 1))

    def pick(self, name, table, k='f'):
        core = self.core
        import numpy
        s = self._sel(name, len(table))
        a = numpy.empty(len(table), dtype=object)
        for i, v in enumerate(table):
            a[i] = core.frac(v)
        return core.mkfactor((s,), a, k)

    def picks(self, name, rows, k='f'):
        """One choice among rows; a tuple of numbers."""
        core = self.core
        import numpy
        s = self._sel(name, len(rows))
        out = []
        for j in range(len(rows[0])):
            a = numpy.empty(len(rows), dtype=object)
            for i, r in enumerate(rows):
                a[i] = core.frac(r[j])
            out.append(core.mkfactor((s,), a, k))
        return tuple(out)

    def text(self, name, options):
        """One of some texts (None allowed), undecided until it matters."""
        from . import shims
        i = self.pick(name, list(range(len(options))), 'i')
        for k, o in enumerate(options):
            if o is None and bool(i == k):
                return None
        return shims.SymStr(i, options)

    def draw(self, name):
        lim = self.p.get('draw', 4)
        t = self.p.get('draw_table')
        if t:
            return self.pick(name, t)
        return self.real(name, -lim, lim)

    def fs(self, names):
        """A directory in which each named path is missing (0), a directory (1)
        or a file (2); the process is in it.  Returns (its path, unchanged)."""
        from . import shims
        st = {}
        for n in sorted(names):
            st[n] = self.pick('state:' + n, [0, 1, 2], 'i')
            up = os.path.dirname(n)
            if up:
                self.assume(self.Or(st[n] == 0, st[up] == 1))
        root = self.tmp()
        os.chdir(root)
        return root, st, shims.symbolic_fs(self, root, st)

    def now_year(self):
        return self._now

    def set_now(self, y):
        self._now = y

    # -- assertions
    def check(self, cond, label):
        core = self.core
        self.labels[label] = self.labels.get(label, 0) + 1
        if self.eng.replaying():
            c = core.tobool(cond)
            if c is False:
                raise core.PathAbort('failed check')
            return
        self.nchecks += 1
        c = core.tobool(cond)
        if c is None:
            c = bool(cond)
        if c is True:
            self.discharged += 1
            return
        if c is False:
            # no model: the path itself is impossible (an assumption just added)
            self.eng.getmodel()
            self.candidates.append((label, self.eng.nice_models([])))
            raise core.PathAbort('failed check')
        ne = self.z3.Not(c.e)
        r, m = self.eng.check(ne)
        if r == self.z3.unsat:
            self.discharged += 1
        elif r == self.z3.sat:
            self.candidates.append((label, self.eng.nice_models([ne], m)))
            self.eng.assume(c)
        else:
            self.inconclusive.append(label)

    def fail(self, label):
        self.check(False, label)

    def cover(self, label):
        self.covered[label] = self.covered.get(label, 0) + 1

    def assume(self, c):
        self.eng.assume(c)

    def guard(self, x):
        if isinstance(x, (self.core.Unsupported, self.z3.Z3Exception, RecursionError, MemoryError)):
            raise x

    # -- values
    def num(self, x):
        return self.core.lift(x)

    def number(self, text):
        """The number a text stands for."""
        from . import shims
        return shims.VFLOAT(text)

    def arr(self, xs, k=None):
        a = self.arrm.of(xs)
        if k and k != a.k:
            a = a.astype_k(k)
        return a

    def mod(self, name):
        return self.reg.load(name)

    def fresh(self, name):
        """The module as a new process would load it."""
        from . import loader
        r = loader.Registry(self.reg.tree, self)
        r.entered = self.reg.entered
        return r.load(name)

    def run_main(self):
        self.reg.run_main()

    def close(self, a, b, tol=None):
        core = self.core
        tol = self.TOL if tol is None else tol
        a, b = core.lift(a), core.lift(b)
        if a is None or b is None:
            return False
        an, bn = self.np.isnan(a), self.np.isnan(b)
        if an is True or bn is True:
            return an is True and bn is True
        if a.v is not None and b.v is not None and (core.special(a.v) or core.special(b.v)):
            return a.v == b.v
        if tol == 0:
            return a == b
        t = core.lift(tol)
        return core.band(a - b <= t * (1 + abs(b)), b - a <= t * (1 + abs(b)))

    def eqv(self, a, b):
        la, lb = self.core.lift(a), self.core.lift(b)
        if la is None or lb is None:
            return a == b
        return la == lb

    def And(self, *xs):
        return self.core.band(*xs)

    def Or(self, *xs):
        return self.core.bor(*xs)

    def Not(self, x):
        return self.core.bnot(self.core.tobool(x))

    def ite(self, c, a, b):
        return self.core.ite(c, a, b)

    def count(self, bs):
        return self.core.count(bs)

    def sum(self, xs):
        return self.np._sum([self.core.lift(x) for x in xs], 'f')

    def min(self, xs):
        r = self.core.lift(xs[0])
        for x in xs[1:]:
            r = self.core.nmin(r, x)
        return r

    def max(self, xs):
        r = self.core.lift(xs[0])
        for x in xs[1:]:
            r = self.core.nmax(r, x)
        return r

    def fun(self, name, *a):
        if name == 'arctan2':
            return self.core.arctan2(*a)
        if name == 'power':
            return self.core.lift(a[0]) ** a[1]
        return self.core.fun(name, *a)

    def floor(self, x):
        return self.core.floor(x)

    def rint(self, x):
        return self.core.rint(x)

    def abs(self, x):
        return abs(self.core.lift(x))

    def decide(self, c):
        """Fork on c."""
        return bool(c)

    def possible(self, c):
        """Whether c holds for some input of this path (no fork)."""
        c = self.core.tobool(c)
        if not isinstance(c, self.core.SB):
            return bool(c)
        return self.eng.check(c.e)[0] == self.z3.sat

    def concrete_int(self, x):
        """Fork over the values of an integer."""
        return int(self.core.lift(x).pin())

    def is_int(self, x):
        x = self.core.lift(x)
        return x is not None and x.k == 'i'


class ConcH(Common):
    symbolic = False

    def __init__(self, sc, values, tier='quick'):
        import numpy
        self.np = numpy
        self.sc, self.p, self.tier = sc, sc['p'], tier
        self.values = values
        self.failures, self.covered, self.labels = [], {}, {}
        self._tmp = None
        self._now = 2024
        self.median_calls, self.median_value = [], None
        self.random = RealRandom(self)
        patch(self)

    def _v(self, name):
        return self.values[name]

    def real(self, name, lo=None, hi=None):
        if name not in self.values:
            raise Stop()
        return float(Fraction(self._v(name)))

    def int(self, name, lo=None, hi=None):
        if name not in self.values:
            raise Stop()
        return int(self._v(name))

    def bool(self, name):
        if name not in self.values:
            raise Stop()
        return bool(self._v(name))

    def choice(self, name, options):
        if name not in self.values:
            raise Stop()
        return options[int(self._v(name))]

    def pick(self, name, table, k='f'):
        if name not in self.values:
            raise Stop()
        v = table[int(self._v(name))]
        return float(v) if k == 'f' else int(v)

    def picks(self, name, rows, k='f'):
        if name not in self.values:
            raise Stop()
        return tuple(float(v) if k == 'f' else int(v) for v in rows[int(self._v(name))])

    def text(self, name, options):
        if name not in self.values:
            raise Stop()
        return options[int(self._v(name))]

    def draw(self, name):
        t = self.p.get('draw_table')
        if name not in self.values:
            # more draws than on the symbolic path: any value will do
            return 0.25
        return self.pick(name, t) if t else self.real(name)

    def fs(self, names):
        st = dict((n, self.pick('state:' + n, [0, 1, 2], 'i')) for n in names)
        self.make_tree(st)
        os.chdir(self.tmp())
        want = dict((n, s) for n, s in st.items() if s)
        return self.tmp(), st, lambda: self.listing() == want

    def now_year(self):
        return self._now

    def set_now(self, y):
        self._now = int(y)

    def check(self, cond, label):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not bool(self.np.all(cond)):
            self.failures.append(label)

    def fail(self, label):
        self.check(False, label)

    def cover(self, label):
        self.covered[label] = self.covered.get(label, 0) + 1

    def assume(self, c):
        if not bool(c):
            raise Stop()

    def guard(self, x):
        pass

    def num(self, x):
        return x

    def number(self, text):
        return float(text)

    def arr(self, xs, k=None):
        t = {None: None, 'f': float, 'i': int, 'b': bool}[k]
        return self.np.array(xs, dtype=t)

    def mod(self, name):
        return importlib.import_module(name)

    def fresh(self, name):
        own = lambda: [n for n in sys.modules if n.split('.')[0] in ('mtoolkit', 'nrml')]
        old = dict((n, sys.modules.pop(n)) for n in own())
        try:
            return importlib.import_module(name)
        finally:
            for n in own():
                del sys.modules[n]
            sys.modules.update(old)

    def run_main(self):
        import logging
        import runpy
        import mtoolkit
        tree = os.path.dirname(os.path.dirname(os.path.abspath(mtoolkit.__file__)))
        try:
            runpy.run_path(os.path.join(tree, 'main.py'), run_name='__main__')
        finally:
            lg = logging.getLogger('mt_logger')
            for h in list(lg.handlers):
                lg.removeHandler(h)
                h.close()

    def close(self, a, b, tol=None):
        tol = self.TOL if tol is None else tol
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return False
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        if tol == 0:
            return a == b
        return abs(a - b) <= tol / 2 * (1 + abs(b))

    def eqv(self, a, b):
        r = a == b
        if not isinstance(r, (bool, self.np.bool_)):
            return bool(self.np.all(r))
        if not r and isinstance(a, float) and isinstance(b, float) and a != a and b != b:
            return True
        return bool(r)

    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not bool(x)

    def ite(self, c, a, b):
        return a if c else b

    def count(self, bs):
        return sum(1 for b in bs if b)

    def sum(self, xs):
        return math.fsum(float(x) for x in xs)

    def min(self, xs):
        return min(xs)

    def max(self, xs):
        return max(xs)

    def fun(self, name, *a):
        if name == 'erfc':
            import math
            return math.erfc(a[0])
        with self.np.errstate(all='ignore'):
            return float(getattr(self.np, name)(*[self.np.float64(x) for x in a]))

    def floor(self, x):
        return math.floor(x)

    def rint(self, x):
        return float(self.np.rint(x))

    def abs(self, x):
        return abs(x)

    def decide(self, c):
        return bool(c)

    def possible(self, c):
        return bool(c)

    def concrete_int(self, x):
        return int(x)

    def is_int(self, x):
        import numbers
        return isinstance(x, numbers.Integral)


class RealRandom(object):
    """Stands in for numpy.random in a replay: the counterexample's variates."""

    def __init__(self, H, seed=None):
        self.H = H
        self.seed(seed)

    def seed(self, seed=None, *a):
        self.prefix, self.n = 'z' if seed is None else 's%s_' % seed, 0

    def _draw(self):
        self.n += 1
        return self.H.variate('%s%d' % (self.prefix, self.n))

    def normal(self, loc=0.0, scale=1.0, size=None):
        import numpy
        if size is None:
            size = numpy.broadcast(loc, scale).shape
            if size == ():
                return loc + scale * self._draw()
        a = numpy.empty(size)
        for ix in numpy.ndindex(*a.shape):
            a[ix] = self._draw()
        return loc + scale * a

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)

    def randn(self, *s):
        return self.normal(0.0, 1.0, s if s else None)

    def RandomState(self, seed=None):
        return RealRandom(self.H, seed)

    default_rng = RandomState


_real = {}


def patch(H):
    """Clock, randomness and nhlib of the real run come from the harness."""
    import datetime
    import time
    import numpy
    import types
    if not _real:
        _real['dt'] = datetime.datetime

        class DT(datetime.datetime):
            H = None

            @classmethod
            def now(cls, tz=None):
                return _real['dt'](DT.H.now_year(), 6, 15, 12)
            utcnow = today = now

        class D(datetime.date):
            @classmethod
            def today(cls):
                return datetime.date(DT.H.now_year(), 6, 15)
        _real['DT'] = DT
        _real['localtime'] = time.localtime
        datetime.datetime = DT
        class NP(object):
            pass
        nh = {}
        for n in ('nhlib', 'nhlib.scalerel', 'nhlib.scalerel.wc1994'):
            nh[n] = types.ModuleType(n)
            nh[n].__path__ = []

        class WC1994(object):
            def get_median_mag(self, area, rake):
                return DT.H.median_mag(area, rake)
        nh['nhlib.scalerel.wc1994'].WC1994 = WC1994
        nh['nhlib.scalerel'].WC1994 = WC1994
        sys.modules.update(nh)

        try:
            import scipy.stats.mstats       # uses numpy.random while it loads
        except ImportError:
            pass
        for n in ('normal', 'standard_normal', 'randn', 'seed', 'default_rng'):
            setattr(numpy.random, n, (lambda n: lambda *a, **k: getattr(DT.H.random, n)(*a, **k))(n))
        # still a type: scipy uses it in annotations
        numpy.random.RandomState = type('RandomState', (object,), {'__new__': lambda cls, seed=None: RealRandom(DT.H, seed)})
    _real['DT'].H = H
