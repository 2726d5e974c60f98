"""Symbolic / concrete execution contexts and the environment stubs installed in the pyclustering modules."""
import builtins, ctypes, importlib, json, math, os, random as _random, sys
from fractions import Fraction

import core
from core import Engine, SymReal, SymBool, F, PathEnd, Budget, Unsupported, z3

REPO = os.environ.get('VERIF_REPO', '/repo')


def import_repo():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')


# ------------------------------------------------------------------ numpy shim
import numpy as _np


def _has_sym(x, depth=0):
    if isinstance(x, (SymReal, SymBool)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object and any(isinstance(e, (SymReal, SymBool)) for e in x.flat)
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(_has_sym(e, depth + 1) for e in x)
    return False


def _map(fn, x):
    if isinstance(x, _np.ndarray):
        if x.ndim == 0:
            return fn(x.item())
        out = _np.empty(x.shape, dtype=object)
        for i in _np.ndindex(x.shape):
            out[i] = fn(x[i])
        return out
    if isinstance(x, (list, tuple)):
        return _map(fn, _mkarray(x))
    return fn(x)


def _mkarray(x, dtype=None):
    if isinstance(x, (list, tuple)) and _has_sym(x):
        return _np.array(x, dtype=object)
    return _np.array(x, dtype=dtype)


def _isfloat_dtype(dt):
    if dt is None or dt is float or isinstance(dt, type) and issubclass(dt, builtins.float):
        return True
    try:
        return _np.dtype(dt).kind == 'f'
    except TypeError:
        return dt is ShimFloat


class _NP:
    """numpy with object-dtype arrays wherever a symbolic value may end up in a floating-point array"""

    def __init__(self, host):
        self.__dict__['_host'] = host
        self.__dict__['warnings'] = _Warn()
        self.__dict__['random'] = _NPRandom(host)
        self.__dict__['linalg'] = _LinAlg()
        self.__dict__['matrix'] = _Matrix

    def __getattr__(self, name):
        if name in _UFUNCS:
            real = getattr(_np, name)
            sym = _UFUNCS[name]

            def f(x, *a, **k):
                if _is_obj(x) or any(_is_obj(y) for y in a):
                    return sym(x, *a, **k)
                return real(x, *a, **k)
            return f
        if name == 'float' or name == 'float_':
            return getattr(_np, 'float64')
        return getattr(_np, name)

    def array(self, x, dtype=None, copy=True, **k):
        if isinstance(dtype, type) and dtype is ShimFloat:
            dtype = builtins.float
        if isinstance(x, _np.ndarray) and x.dtype == object:
            if dtype is not None and _np.dtype(dtype).kind in 'iu':
                return _np.array([int(e) for e in x.flat], dtype=dtype).reshape(x.shape)
            return _np.array(x, dtype=object, copy=copy)
        if _has_sym(x):
            if dtype is not None and dtype is not object and not _isfloat_dtype(dtype):
                return _np.array(_intlist(x), dtype=dtype)
            return _np.array(x, dtype=object)
        r = _np.array(x, dtype=dtype, copy=copy, **k)
        if r.dtype.kind == 'f':
            return _obj(r)
        return r

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, _np.ndarray) and (x.dtype == object or x.dtype.kind != 'f'):
            return x
        return self.array(x, dtype)

    def asmatrix(self, x, *a, **k):
        return _np.asmatrix(self.asarray(x))

    def _make(self, shape, val, dtype):
        if dtype is ShimFloat:
            dtype = builtins.float
        if _isfloat_dtype(dtype):
            r = _np.empty(shape, dtype=object)
            r.fill(val)
            return r
        return _np.full(shape, val, dtype=dtype)

    def zeros(self, shape, dtype=None, **k): return self._make(shape, 0.0, dtype)
    def ones(self, shape, dtype=None, **k): return self._make(shape, 1.0, dtype)
    def empty(self, shape, dtype=None, **k): return self._make(shape, 0.0, dtype)

    def full(self, shape, v, dtype=None, **k):
        if dtype is None and (isinstance(v, (builtins.float, SymReal)) or _has_sym(v)):
            r = _np.empty(shape, dtype=object)
            if isinstance(v, (list, tuple, _np.ndarray)):
                r[...] = self.array(v)
            else:
                r.fill(v)
            return r
        return self._make(shape, v, dtype if dtype is not None else type(v))

    def zeros_like(self, x, dtype=None, **k): return self._make(_np.shape(x), 0.0, dtype if dtype is not None else (None if _np.asarray(x).dtype.kind in 'fO' else _np.asarray(x).dtype))
    def ones_like(self, x, dtype=None, **k): return self._make(_np.shape(x), 1.0, dtype if dtype is not None else (None if _np.asarray(x).dtype.kind in 'fO' else _np.asarray(x).dtype))
    def empty_like(self, x, dtype=None, **k): return self.zeros_like(x, dtype)

    def full_like(self, x, v, **k): return self.full(_np.shape(x), v)

    def eye(self, n, m=None, **k): return _obj(_np.eye(n, m))
    def identity(self, n, **k): return _obj(_np.eye(n))

    def arange(self, *a, **k):
        if any(isinstance(x, SymReal) for x in a):
            raise Unsupported('arange')
        return _np.arange(*a, **k)

    def isclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        if not (_is_obj(a) or _is_obj(b)):
            return _np.isclose(a, b, rtol, atol)
        return _map2(lambda x, y: bool(abs(x - y) <= atol + rtol * abs(y)), a, b)

    def cov(self, m, y=None, rowvar=True, bias=False, ddof=None, **k):
        if not _is_obj(m) or y is not None or k:
            return _np.cov(m, y, rowvar, bias, ddof, **k)
        x = _mkarray(m) if not isinstance(m, _np.ndarray) else m
        if x.ndim == 1:
            x = x.reshape(1, -1)
        elif not rowvar and x.shape[0] != 1:
            x = x.T
        n = x.shape[1] - (ddof if ddof is not None else 0 if bias else 1)
        d = [[v - _np.sum(r) / len(r) for v in r] for r in x]
        out = _np.empty((len(d), len(d)), dtype=object)
        for i in range(len(d)):
            for j in range(len(d)):
                out[i, j] = sum(a * b for a, b in zip(d[i], d[j])) / n
        return out.squeeze()

    def allclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        return bool(_np.all(self.isclose(a, b, rtol, atol)))


class _MatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _np.matrix)

    def __call__(cls, x, *a, **k):
        return _np.matrix(x, dtype=object)


class _Matrix(metaclass=_MatMeta):
    pass


class _LinAlg:
    def __getattr__(self, n):
        return getattr(_np.linalg, n)

    def norm(self, x, ord=None, axis=None, **k):
        if not _is_obj(x):
            return _np.linalg.norm(x, ord, axis, **k)
        x = _mkarray(x) if not isinstance(x, _np.ndarray) else x
        if ord == 1:
            return _np.sum(_map(abs, x), axis=axis)
        if ord in (math.inf,):
            return _np.max(_map(abs, x), axis=axis)
        if ord not in (None, 2):
            raise Unsupported('norm')
        return _map(_sqrt, _np.sum(x * x, axis=axis))


class _Warn:
    def filterwarnings(self, *a, **k): pass
    def simplefilter(self, *a, **k): pass


def _obj(r):
    o = _np.empty(r.shape, dtype=object)
    for i in _np.ndindex(r.shape):
        o[i] = r[i].item()
    return o


def _intlist(x):
    if isinstance(x, (list, tuple)):
        return [_intlist(e) for e in x]
    return int(x)


def _is_obj(x):
    if isinstance(x, (SymReal, SymBool)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return _has_sym(x) or any(isinstance(e, _np.ndarray) and e.dtype == object for e in x)
    return False


def _sqrt(x):
    if isinstance(x, SymReal):
        return core.sym_sqrt(x)
    return math.sqrt(x) if x >= 0 else math.nan


def _f1(name):
    def g(x):
        if isinstance(x, SymReal):
            return getattr(x, name)()
        return getattr(_np, name)(x).item()
    return lambda x, *a, **k: _map(g, x)


def _map2(fn, a, b):
    a = a if isinstance(a, _np.ndarray) else (_mkarray(a) if isinstance(a, (list, tuple)) else a)
    b = b if isinstance(b, _np.ndarray) else (_mkarray(b) if isinstance(b, (list, tuple)) else b)
    if not isinstance(a, _np.ndarray) and not isinstance(b, _np.ndarray):
        return fn(a, b)
    if not isinstance(a, _np.ndarray):
        a0 = _np.empty(b.shape, dtype=object); a0.fill(a); a = a0
    if not isinstance(b, _np.ndarray):
        b0 = _np.empty(a.shape, dtype=object); b0.fill(b); b = b0
    a, b = _np.broadcast_arrays(a, b)
    out = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(a.shape):
        out[i] = fn(a[i], b[i])
    return out


def _pow(x, y):
    if isinstance(x, SymReal) or isinstance(y, SymReal):
        return x ** y
    return builtins.pow(x, y)


def _div(x, y):
    e = core.Engine.cur
    old, e.div_zero = e.div_zero, 'nan'
    try:
        return core.sym_div(core._coerce(x), core._coerce(y))
    finally:
        e.div_zero = old


def _nan_to_num(e):
    if isinstance(e, SymReal) or not isinstance(e, builtins.float):
        return e
    return 0.0 if e != e else (1.7976931348623157e308 if e == math.inf else (-1.7976931348623157e308 if e == -math.inf else e))


_UFUNCS = {
    'divide': lambda x, y, *a, **k: _map2(_div, x, y), 'true_divide': lambda x, y, *a, **k: _map2(_div, x, y), 'nan_to_num': lambda x, *a, **k: _map(_nan_to_num, x),
    'sqrt': lambda x, *a, **k: _map(_sqrt, x), 'square': lambda x, *a, **k: _map(lambda e: e * e, x),
    'abs': lambda x, *a, **k: _map(abs, x), 'absolute': lambda x, *a, **k: _map(abs, x), 'fabs': lambda x, *a, **k: _map(abs, x),
    'exp': _f1('exp'), 'log': _f1('log'), 'sin': _f1('sin'), 'cos': _f1('cos'), 'tanh': _f1('tanh'), 'floor': _f1('floor'), 'ceil': _f1('ceil'),
    'isnan': lambda x, *a, **k: _tobool(_map(lambda e: False if isinstance(e, SymReal) else e != e, x)),
    'isinf': lambda x, *a, **k: _tobool(_map(lambda e: False if isinstance(e, SymReal) else e in (math.inf, -math.inf), x)),
    'power': lambda x, y, *a, **k: _map2(_pow, x, y), 'float_power': lambda x, y, *a, **k: _map2(_pow, x, y),
    'maximum': lambda x, y, *a, **k: _map2(lambda p, q: p if p >= q else q, x, y),
    'minimum': lambda x, y, *a, **k: _map2(lambda p, q: p if p <= q else q, x, y),
}


def _tobool(x):
    return x.astype(bool) if isinstance(x, _np.ndarray) else x


class _MetaFloat(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, SymReal) and not x.isint)

    def __subclasscheck__(cls, x):
        return issubclass(x, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class ShimFloat(metaclass=_MetaFloat):
    def __new__(cls, x=0.0):
        if isinstance(x, SymReal):
            return SymReal(x.p)
        return builtins.float(x)


class _Math:
    """math module accepting symbolic values"""
    def __getattr__(self, n):
        real = getattr(math, n)
        if not callable(real):
            return real

        def f(*a):
            if any(isinstance(x, (SymReal, SymBool)) for x in a):
                return _math_sym(n, *a)
            return real(*a)
        return f


def _math_sym(n, *a):
    x = a[0]
    if n == 'sqrt': return core.sym_sqrt(x)
    if n == 'floor': return core.sym_floor(x, True)
    if n == 'ceil': return -core.sym_floor(-x, True)
    if n == 'trunc': return core.sym_trunc(x)
    if n == 'fabs': return abs(x)
    if n == 'pow': return core.sym_pow(a[0], a[1])
    if n in ('exp', 'log', 'sin', 'cos', 'tanh', 'log2', 'expm1', 'erfc') and len(a) == 1: return core.sym_fun(n, x)
    if n == 'isnan': return False
    if n == 'isinf': return False
    if n == 'isfinite': return True
    if n == 'isclose': return bool(abs(a[0] - a[1]) <= 1e-9 * max(abs(a[0]), abs(a[1])))
    if n == 'fsum': return sum(a[0])
    if n == 'hypot': return core.sym_sqrt(sum(v * v for v in a))
    if n == 'dist': return core.sym_sqrt(sum((p - q) * (p - q) for p, q in zip(*a)))
    raise Unsupported('math.' + n)


class _Stream:
    """draws of one generator; the context may ask what the generator was seeded with and how many values it gave since then"""

    def __init__(self, host, kind):
        self.host, self.kind, self.state, self.n = host, kind, None, 0

    def seed(self, v): self.state, self.n = v, 0

    def _draw(self):
        Holder.stream = (self.kind, self.state, self.n)
        self.n += 1

    def rnd01(self):
        self._draw()
        return self.host.rnd01()

    def choose(self, n):
        self._draw()
        return self.host.choose(n)

    @property
    def symbolic(self): return self.host.symbolic

    @property
    def ctx(self): return self.host.ctx


class _Random:
    """`random` module: every value is an unconstrained nondeterministic choice within its documented range"""

    def __init__(self, host):
        self._h = _Stream(host, 'random')

    def seed(self, a=None, *b, **k): self._h.seed(a)
    def random(self): return self._h.rnd01()
    def uniform(self, a, b): return a + (b - a) * self._h.rnd01()
    def randint(self, a, b): return int(a) + self._h.choose(int(b) - int(a) + 1)
    def randrange(self, a, b=None, step=1):
        r = range(a) if b is None else range(a, b, step)
        return r[self._h.choose(len(r))]
    def choice(self, s): return s[self._h.choose(len(s))]
    def sample(self, s, k):
        s = list(s)
        r = [s.pop(self._h.choose(len(s))) for _ in range(k)]
        hook = getattr(getattr(self._h.host, 'ctx', self._h.host), 'on_sample', None)
        if hook is not None:
            hook(r)
        return r
    def shuffle(self, s):
        t = list(s)
        t = [t.pop(self._h.choose(len(t))) for _ in range(len(t))]
        s[:] = t
    def gauss(self, mu=0.0, sigma=1.0):
        # any value within six standard deviations
        return mu + sigma * (12 * self._h.rnd01() - 6)
    normalvariate = gauss
    def Random(self, a=None):
        r = _Random(self._h.host)
        r.seed(a)
        return r
    def getstate(self): return None
    def setstate(self, s): pass
    def __getattr__(self, n): raise Unsupported('random.' + n)


class _NPRandom:
    def __init__(self, host):
        self._h = _Stream(host, 'numpy')

    def seed(self, a=None, *b, **k): self._h.seed(a)

    def random(self, size=None):
        if size is None: return self._h.rnd01()
        r = _np.empty(size, dtype=object)
        for i in _np.ndindex(r.shape): r[i] = self._h.rnd01()
        return r if self._h.symbolic else r.astype(float)
    random_sample = random
    sample = random

    def rand(self, *shape):
        return self.random(shape if shape else None)

    def uniform(self, a=0.0, b=1.0, size=None):
        return a + (b - a) * self.random(size)

    def randint(self, lo, hi=None, size=None, **k):
        if hi is None: lo, hi = 0, lo
        if size is None: return lo + self._h.choose(hi - lo)
        r = _np.empty(size, dtype=int)
        for i in _np.ndindex(r.shape): r[i] = lo + self._h.choose(hi - lo)
        return r

    def choice(self, a, size=None, replace=True, p=None):
        s = list(range(a)) if isinstance(a, (int, _np.integer)) else list(a)
        if p is not None:
            keep = [i for i in range(len(s)) if p[i] > 0]
            s = [s[i] for i in keep]
        if size is None: return s[self._h.choose(len(s))]
        n = size if isinstance(size, int) else int(_np.prod(size))
        out = []
        for _ in range(n):
            i = self._h.choose(len(s))
            out.append(s[i] if replace else s.pop(i))
        return _np.array(out).reshape(size)

    def shuffle(self, s):
        t = [s[i] for i in range(len(s))]
        for i in range(len(s)):
            s[i] = t.pop(self._h.choose(len(t)))

    def permutation(self, s):
        t = list(range(s)) if isinstance(s, int) else list(s)
        out = []
        while t: out.append(t.pop(self._h.choose(len(t))))
        return _np.array(out)

    def RandomState(self, seed=None, *a, **k):
        r = _NPRandom(self._h.host)
        r.seed(seed)
        return r
    default_rng = RandomState
    def __getattr__(self, n): raise Unsupported('numpy.random.' + n)


# ------------------------------------------------------------------ contexts
class Ctx:
    symbolic = False
    le, lt, ge, gt, eq, ne = map(staticmethod, (core.le, core.lt, core.ge, core.gt, core.eq, core.ne))
    all_, any_, not_, implies, iff = map(staticmethod, (core.all_, core.any_, core.not_, core.implies, core.iff))

    def reals(self, prefix, n, lo=-100, hi=100):
        return [self.real('%s%d' % (prefix, i), lo, hi) for i in range(n)]

    def points(self, prefix, n, dim=1, lo=-100, hi=100):
        return [[self.real('%s%d_%d' % (prefix, i, d), lo, hi) for d in range(dim)] for i in range(n)]

    def dist_matrix(self, prefix, n, lo=0, hi=100, integer=False):
        m = [[0.0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1, n):
                m[i][j] = m[j][i] = (self.int if integer else self.real)('%s%d_%d' % (prefix, i, j), lo, hi)
        return m

    def sqrt(self, x):
        return core.sym_sqrt(x) if isinstance(x, SymReal) else math.sqrt(x)


class Violation(Exception):
    pass


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, eng, on_cex, cc=False):
        self.e = eng
        self.on_cex = on_cex
        self.cc = cc
        self.observed = []
        self.labels = []
        self.known = set()
        self.nrnd = 0

    def real(self, name, lo=-100, hi=100):
        v = self.e.new_var('real', name)
        s = SymReal({(v,): Fraction(1)})
        z = self.e.z3var(v)
        if lo is not None:
            self.e.assume_aux(z >= lo)
        if hi is not None:
            self.e.assume_aux(z <= hi)
        self.e.inputs.append((name, v, 'real', lo, hi))
        return s

    def int(self, name, lo, hi):
        v = self.e.new_var('int', name)
        s = SymReal({(v,): Fraction(1)}, True)
        z = self.e.z3var(v)
        self.e.assume_aux(z >= lo, z <= hi)
        self.e.inputs.append((name, v, 'int', lo, hi))
        return s

    def choose(self, n):
        return self.e.choose(n)

    def pick(self, name, values):
        """nondeterministic configuration choice (every value explored)"""
        return values[self.e.choose(len(values))]

    def rnd01(self):
        self.nrnd += 1
        v = self.e.new_var('real', 'rnd%d' % self.nrnd)
        z = self.e.z3var(v)
        self.e.assume_aux(z >= 0, z < 1)
        self.e.inputs.append(('rnd%d' % self.nrnd, v, 'real', 0, 1))
        return SymReal({(v,): Fraction(1)})

    def assume(self, f):
        self.e.assume(f)

    def reach(self, label):
        self.labels.append(label)

    def check(self, f, msg, known=None):
        """obligation: f holds for every input of the current path.
        known=(finding id, condition): failures under the condition belong to that listed finding"""
        if known is not None and known[0] in self.known:
            cond = core.fc(known[1])
            self._check(core.F('or', core.fc(f), cond), msg)
            self._check(core.F('or', core.fc(f), core.F('not', cond)), msg, known[0])
            return
        self._check(f, msg)

    def _check(self, f, msg, finding=None):
        f = core.fc(f)
        e = self.e
        if e.replaying():
            return
        e.stats['obligations'] += 1
        if f.k == 'c':
            if f.a[0]:
                e.stats['discharged'] += 1
                return
        r, m = e.refined_check(z3.Not(core.f_z3(e, f)))
        if r == z3.unsat:
            e.stats['discharged'] += 1
        elif r == z3.unknown:
            e.incomplete.append('unknown: ' + msg)
        else:
            self.on_cex(self, f, m, msg, finding)

    def obs(self, name, value):
        self.observed.append((name, value))

    def unbox(self, x):
        return deep(self.e.unbox, x)


class ConCtx(Ctx):
    def __init__(self, values, nondets, cc=False):
        self.values, self.nondets = values, list(nondets)
        self.cc = cc
        self.nd = 0
        self.nrnd = 0
        self.failed = []
        self.observed = []
        self.assumption_failed = False

    def default(self, lo, hi):
        """a crash before the first decision: it needs no particular inputs"""
        self.nd0 = getattr(self, 'nd0', 0) + 1
        return lo + (hi - lo) * Fraction(self.nd0 * 7 % 16 + 1, 18)

    def real(self, name, lo=-100, hi=100):
        if not self.values:
            return float(self.default(Fraction(lo), Fraction(hi)))
        return float(Fraction(self.values[name]))

    def int(self, name, lo, hi):
        if not self.values:
            return int(self.default(lo, hi))
        return int(Fraction(self.values[name]))

    def choose(self, n):
        if self.nd >= len(self.nondets):
            self.nd += 1
            return 0
        v = self.nondets[self.nd]
        self.nd += 1
        return min(v, n - 1)

    def pick(self, name, values):
        return values[self.choose(len(values))]

    def rnd01(self):
        self.nrnd += 1
        return float(Fraction(self.values.get('rnd%d' % self.nrnd, '0')))

    def assume(self, f):
        ok = f if isinstance(f, bool) else core.f_eval(f, Fraction(1, 10**9))
        if not ok:
            self.assumption_failed = True
            raise PathEnd()

    def reach(self, label): pass

    def check(self, f, msg, known=None):
        f = core.fc(f)
        if not core.f_eval(f, Fraction(1, 10**7)):
            listed = known is not None and core.f_eval(core.fc(known[1]), Fraction(1, 10**7))
            self.failed.append(('[listed] ' if listed else '') + msg)

    def obs(self, name, value):
        self.observed.append((name, plain(value)))

    def unbox(self, x):
        return x


def deep(fn, x):
    if isinstance(x, float):
        return fn(x)
    if isinstance(x, list):
        return [deep(fn, e) for e in x]
    if isinstance(x, tuple):
        return tuple(deep(fn, e) for e in x)
    if isinstance(x, dict):
        return {k: deep(fn, v) for k, v in x.items()}
    if isinstance(x, _np.ndarray):
        if x.dtype.kind == 'f':
            o = _np.empty(x.shape, dtype=object)
            for i in _np.ndindex(x.shape):
                o[i] = fn(x[i].item())
            return o
        return x
    if isinstance(x, _np.floating):
        return fn(x.item())
    return x


def plain(x):
    """JSON-able concrete value"""
    if isinstance(x, _np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (list, tuple)):
        return [plain(e) for e in x]
    if isinstance(x, (set, frozenset)):
        return sorted(plain(e) for e in x)
    if isinstance(x, (_np.integer,)):
        return int(x)
    if isinstance(x, (_np.floating,)):
        return float(x)
    if isinstance(x, (_np.bool_,)):
        return bool(x)
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    return x


# ------------------------------------------------------------------ patching
def patch_modules(ctx_holder, symbolic):
    """install the environment stubs in every loaded pyclustering module.
    symbolic: numpy / math / float become proxies; both modes: random generators are the harness's nondeterminism."""
    import types
    npshim = _NP(ctx_holder)
    mshim = _Math()
    rshim = _Random(ctx_holder)
    connp = _ConNumpy(ctx_holder)
    skip = ('pyclustering.cluster.generator',)
    for name, mod in list(sys.modules.items()):
        if not (name == 'pyclustering' or name.startswith('pyclustering.')) or mod is None or '.tests' in name:
            continue
        g = mod.__dict__
        for k, v in list(g.items()):
            if v is _random:
                g[k] = rshim
            elif symbolic and v is _np:
                if not name.startswith('pyclustering.core'):
                    g[k] = npshim
            elif not symbolic and v is _np:
                g[k] = connp
            elif symbolic and v is math:
                g[k] = mshim
            elif isinstance(v, types.BuiltinFunctionType):
                if getattr(v, '__module__', None) == 'math' and symbolic:
                    g[k] = getattr(mshim, v.__name__)
                elif getattr(v, '__module__', None) == 'numpy' and symbolic:
                    g[k] = getattr(npshim, v.__name__)
            elif getattr(v, '__self__', None) is getattr(_random, '_inst', None) and v is getattr(_random, k, None):
                g[k] = getattr(rshim, k)
            elif symbolic and isinstance(v, _np.ufunc):
                g[k] = getattr(npshim, v.__name__)
        if symbolic and 'pyclustering.core' not in name:
            g['float'] = ShimFloat


class _ConNumpy:
    """real numpy, except numpy.random (recorded values) and numpy.warnings (removed from recent numpy)"""
    def __init__(self, host):
        self.random = _NPRandom(host)

    def __getattr__(self, n):
        return getattr(_np, n)


class Holder:
    """current context, seen by the stubs"""
    ctx = None
    stream = None       # of the last draw: generator, its seed (None: not seeded by the user), values drawn since then

    @property
    def symbolic(self): return self.ctx.symbolic
    def rnd01(self): return self.ctx.rnd01()
    def choose(self, n): return self.ctx.choose(n)


HOLDER = Holder()

# ------------------------------------------------------------------ compiled core
_BIN = {0: lambda a, b: a + b, 1: lambda a, b: a - b, 2: lambda a, b: a * b}


def set_core_library(path):
    import pyclustering.core.definitions as d
    import pyclustering.core.wrapper as w
    d.PATH_PYCLUSTERING_CCORE_LIBRARY = path
    w.PATH_PYCLUSTERING_CCORE_LIBRARY = path
    L = w.ccore_library
    L._ccore_library__library = None
    L._ccore_library__workable = False
    L._ccore_library__initialized = False


_keep = []


def install_callbacks(path, holder, symbolic=True):
    lib = ctypes.CDLL(path)
    BIN = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_int, ctypes.c_uint64, ctypes.c_uint64)
    CMP = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int, ctypes.c_uint64, ctypes.c_uint64)
    INT = ctypes.CFUNCTYPE(ctypes.c_int64, ctypes.c_int, ctypes.c_uint64)
    R01 = ctypes.CFUNCTYPE(ctypes.c_uint64)
    RIN = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_uint64, ctypes.c_uint64)

    def val(b):
        e = Engine.cur
        f = core.b2f(b)
        if f != f and core.is_box_bits(b):
            return e.nodes[b & 0xFFFFFFFFFFFF]
        return f

    def boxv(x):
        if isinstance(x, SymReal):
            return core.f2b(Engine.cur.box(x))
        return core.f2b(float(x))

    def guarded(f, default):
        def g(*a):
            e = Engine.cur
            if e is not None and e.abort is not None:
                e.abort_count += 1
                if e.abort_count > 200000:
                    os._exit(78)
                return default
            try:
                return f(*a)
            except BaseException as ex:
                if e is None:
                    return default
                e.abort = ex
                e.abort_count = 0
                return default
        return g

    def bin_(op, a, b):
        e = Engine.cur
        x = val(a)
        old = e.div_zero
        e.div_zero = 'nan'
        try:
            if op < 20:
                y = val(b)
                if op == 0: return boxv(x + y)
                if op == 1: return boxv(x - y)
                if op == 2: return boxv(x * y)
                if op == 3:
                    return boxv(core.sym_div(core._coerce(x), core._coerce(y)))
                if op == 5:
                    if isinstance(y, float): return boxv(core.sym_pow(x, y))
                    raise Unsupported('pow symbolic exponent')
                if op == 6: return boxv(x if x >= y else y)
                if op == 7: return boxv(x if x <= y else y)
                if op == 8: return boxv(core.sym_sqrt(x * x + y * y))
                raise Unsupported('fp op %d' % op)
            if op == 20: return boxv(-x)
            if op == 21: return boxv(core.sym_sqrt(x))
            if op == 22: return boxv(abs(x))
            if op == 23: return boxv(core.sym_floor(x, True))
            if op == 24: return boxv(-core.sym_floor(-x, True))
            if op == 34:
                return boxv(core.sym_floor(x + Fraction(1, 2), True))
            if op == 35: return boxv(core.sym_trunc(x))
            if op == 36: return boxv(core.sym_root(x, 3))
            nm = {25: 'exp', 26: 'expm1', 27: 'log', 28: 'sin', 29: 'cos', 30: 'tanh', 31: 'erfc', 32: 'arctan', 33: 'log2'}[op]
            return boxv(core.sym_fun(nm, x))
        finally:
            e.div_zero = old

    OPN = {0: '<', 1: '<=', 2: '>', 3: '>=', 4: '==', 5: '!=', 6: '<', 7: '<=', 8: '>', 9: '>=', 10: '==', 11: '!='}

    def cmp_(op, a, b):
        x, y = val(a), val(b)
        nan = (isinstance(x, float) and x != x) or (isinstance(y, float) and y != y)
        if op == 12: return int(nan)
        if op == 13: return int(not nan)
        if nan: return int(op >= 6)
        return int(bool(core.symcmp(OPN[op], core._coerce(x), core._coerce(y))))

    def int_(op, a):
        return core.sym_trunc(val(a))

    lib.sym_stream.restype = ctypes.POINTER(ctypes.c_uint64)
    drawn = lib.sym_stream()

    def r01():
        Holder.stream = ('core', drawn[1] if drawn[0] else None, drawn[2])
        return boxv(holder.rnd01())

    def rin(lo, hi):
        Holder.stream = ('core', drawn[1] if drawn[0] else None, drawn[2])
        lo = lo - (1 << 64) if lo >> 63 else lo
        hi = hi - (1 << 64) if hi >> 63 else hi
        return (lo + holder.choose(hi - lo + 1)) & ((1 << 64) - 1)

    cbs = (BIN(guarded(bin_, core.f2b(0.0))), CMP(guarded(cmp_, 0)), INT(guarded(int_, 0)), R01(guarded(r01, core.f2b(0.0))), RIN(guarded(rin, 0)))
    _keep.append(cbs)
    lib.sym_set_callbacks(*cbs)
    return lib


def patch_core_results():
    """values read back from the core are turned into symbolic values again"""
    import pyclustering.core.pyclustering_package as pp
    orig = pp.package_extractor.extract

    def extract(self):
        r = orig(self)
        e = Engine.cur
        if e.abort is not None:
            ex, e.abort = e.abort, None
            raise ex
        return deep(e.unbox, r)
    pp.package_extractor.extract = extract
