"""Symbolic execution core: exact polynomial terms, sign decisions decided by z3, path exploration.

A path is executed by running the real code; every comparison on a symbolic value asks `Engine.decide_sign`,
which lets z3 decide which outcomes are feasible under the path condition and explores every feasible one
(by re-execution with a decision prefix).
"""
import math, os, sys, time
from fractions import Fraction

Z3_PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def _load_z3():
    if 'z3' in sys.modules:
        return sys.modules['z3']
    import importlib.util
    spec = importlib.util.spec_from_file_location('z3', Z3_PATH + '/z3/__init__.py',
                                                  submodule_search_locations=[Z3_PATH + '/z3'])
    m = importlib.util.module_from_spec(spec)
    sys.modules['z3'] = m
    spec.loader.exec_module(m)
    return m


z3 = _load_z3()

NEG, ZERO, POS = 1, 2, 4
OPS = {'<': NEG, '<=': NEG | ZERO, '==': ZERO, '!=': NEG | POS, '>': POS, '>=': POS | ZERO}


class PathEnd(BaseException):
    """The current path is finished early (infeasible assumption)."""


class Budget(BaseException):
    """The current path exceeded its decision budget."""


class Unsupported(Exception):
    """The code did something to a symbolic value that the encoding cannot express."""


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(x)


# ---------------------------------------------------------------- polynomials
# A polynomial is a dict {monomial: Fraction}; a monomial is a sorted tuple of variable ids (with repetition).

def p_const(c):
    return {(): c} if c != 0 else {}


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if k == 1 else c * k)
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def p_scale(a, k):
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def p_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


def p_isconst(a):
    return not a or (len(a) == 1 and () in a)


def p_cval(a):
    return a.get((), Fraction(0))


def p_deg(a):
    return max((len(m) for m in a), default=0)


def p_norm(a):
    """-> (key, positive_scale_sign): key is a hashable form of a / lc, sign is the sign of lc."""
    items = sorted(a.items())
    lead = None
    for m, c in items:
        if m:
            lead = c
            break
    if lead is None:
        lead = items[0][1]
    return tuple((m, c / lead) for m, c in items), (1 if lead > 0 else -1)


def p_div_lin(a, l):
    """exact division of polynomial a by linear polynomial l, or None"""
    # choose leading variable of l
    v = None
    for m in l:
        if len(m) == 1:
            v = m[0]
            break
    if v is None:
        return None
    lc = l[(v,)]
    rest = {m: c for m, c in l.items() if m != (v,)}
    q = {}
    r = dict(a)
    while True:
        # highest degree in v
        best, bd = None, 0
        for m in r:
            d = m.count(v)
            if d > bd:
                bd, best = d, m
        if best is None:
            break
        c = r[best]
        mm = list(best)
        mm.remove(v)
        mm = tuple(mm)
        t = {mm: c / lc}
        q = p_add(q, t)
        r = p_add(r, p_mul(t, l), -1)
    return q if not r else None


def p_vars(a):
    return {v for m in a for v in m}


def _coef(a):
    """coefficients of a univariate polynomial, the highest first"""
    n = p_deg(a)
    r = [Fraction(0)] * (n + 1)
    for m, c in a.items():
        r[n - len(m)] = c
    return r


def _divmod1(a, b):
    a = list(a)
    q = []
    while len(a) >= len(b):
        k = a[0] / b[0]
        q.append(k)
        if k:
            for i in range(len(b)):
                a[i] -= k * b[i]
        a.pop(0)
    i = 0
    while i < len(a) and a[i] == 0:
        i += 1
    return q, a[i:]


def _uncoef(c, v):
    n = len(c) - 1
    return {(v,) * (n - i): x for i, x in enumerate(c) if x}


def p_div_exact(a, b):
    """a / b if b divides a and both have one variable (or b is linear), otherwise None"""
    if p_isconst(b):
        return p_scale(a, 1 / p_cval(b))
    if not a:
        return {}
    va, vb = p_vars(a), p_vars(b)
    if not vb <= va or p_deg(b) > p_deg(a):
        return None
    if len(va) == 1:
        q, r = _divmod1(_coef(a), _coef(b))
        return None if r else _uncoef(q, next(iter(va)))
    if p_deg(b) == 1:
        return p_div_lin(a, b)
    return None


def p_gcd1(a, b):
    """greatest common divisor of positive degree of polynomials of one variable, or None"""
    va, vb = p_vars(a), p_vars(b)
    if len(va) != 1 or va != vb:
        return None
    x, y = _coef(a), _coef(b)
    if len(x) < len(y):
        x, y = y, x
    while y:
        r = _divmod1(x, y)[1]
        if r:
            k = r[0]
            r = [c / k for c in r]
        x, y = y, r
    return _uncoef(x, next(iter(va))) if len(x) > 1 else None


def f_sqrt(c):
    """rational square root or None"""
    if c < 0:
        return None
    n, d = c.numerator, c.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None


_sqrt_cache = {}


def p_sqrt(a):
    """polynomial r of degree <=1 with r*r == a, or None"""
    if not a:
        return {}
    key = tuple(sorted(a.items()))
    if key in _sqrt_cache:
        return _sqrt_cache[key]
    r = _p_sqrt(a)
    _sqrt_cache[key] = r
    return r


def _p_sqrt(a):
    if p_isconst(a):
        s = f_sqrt(p_cval(a))
        return None if s is None else p_const(s)
    if p_deg(a) != 2:
        return None
    v = None
    for m in a:
        if len(m) == 2 and m[0] == m[1]:
            v = m[0]
            break
    if v is None:
        return None
    s = f_sqrt(a[(v, v)])
    if s is None:
        return None
    r = {(v,): s}
    for m, c in a.items():
        if m == (v, v):
            continue
        if v in m:
            o = [x for x in m]
            o.remove(v)
            r[tuple(o)] = c / (2 * s)
    return r if p_mul(r, r) == a else None


_fact_cache = {}


def p_factor2(a):
    """factor a quadratic into two linear polynomials (l1, l2) with l1*l2 == a, or None"""
    key = tuple(sorted(a.items()))
    if key in _fact_cache:
        return _fact_cache[key]
    r = _p_factor2(a)
    if r is not None and p_mul(r[0], r[1]) != a:
        r = None
    _fact_cache[key] = r
    return r


def _p_factor2(a):
    if p_deg(a) != 2:
        return None
    v = None
    for m in a:
        if len(m) == 2 and m[0] == m[1]:
            v = m[0]
            break
    if v is not None:
        A = a[(v, v)]
        B, C = {}, {}
        for m, c in a.items():
            k = m.count(v)
            if k == 1:
                o = list(m)
                o.remove(v)
                B[tuple(o)] = c
            elif k == 0:
                C[m] = c
        disc = p_add(p_mul(B, B), p_scale(C, -4 * A))
        s = p_sqrt(disc)
        if s is None:
            return None
        l1 = p_add({(v,): 2 * A}, p_add(B, s, -1))
        l2 = p_add({(v,): 2 * A}, p_add(B, s))
        return l1, p_scale(l2, Fraction(1) / (4 * A))
    for m in a:
        if len(m) == 2:
            v = m[0]
            break
    B, C = {}, {}
    for m, c in a.items():
        if v in m:
            o = list(m)
            o.remove(v)
            B[tuple(o)] = c
        else:
            C[m] = c
    if p_isconst(B):
        return None
    q = p_div_lin(C, B) if C else {}
    if q is None:
        return None
    return B, p_add({(v,): Fraction(1)}, q)


# ---------------------------------------------------------------- formulas (property side)
class F:
    __slots__ = ('k', 'a')

    def __init__(self, k, *a):
        self.k, self.a = k, a

    def __and__(self, o):
        return F('and', self, o)

    def __or__(self, o):
        return F('or', self, o)

    def __invert__(self):
        return F('not', self)

    def __bool__(self):
        raise TypeError('formula used as bool')


TRUE, FALSE = F('c', True), F('c', False)


def _val(x):
    """Value for comparisons in formulas: SymReal or exact Fraction or float nan/inf"""
    if isinstance(x, SymReal):
        return x
    if isinstance(x, (bool,)):
        return Fraction(int(x))
    if hasattr(x, 'item') and not isinstance(x, SymReal):
        x = x.item()
        if isinstance(x, SymReal):
            return x
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return x
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    raise TypeError('not a number: %r' % (x,))


def cmp(op, a, b):
    return F('cmp', op, _val(a), _val(b))


def le(a, b): return cmp('<=', a, b)
def lt(a, b): return cmp('<', a, b)
def ge(a, b): return cmp('>=', a, b)
def gt(a, b): return cmp('>', a, b)
def eq(a, b): return cmp('==', a, b)
def ne(a, b): return F('not', cmp('==', a, b))


def fc(b): return b if isinstance(b, F) else F('c', bool(b))
def all_(xs): return F('and', *[fc(x) for x in xs])
def any_(xs): return F('or', *[fc(x) for x in xs])
def not_(x): return F('not', fc(x))
def implies(a, b): return F('or', not_(a), fc(b))
def iff(a, b): return F('and', implies(a, b), implies(b, a))


_NEGOP = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}


def f_z3(eng, f, eps=0, pol=True):
    """z3 term for formula f. With eps>0, f is *relaxed* (made easier to satisfy) by eps, in positive polarity."""
    k = f.k
    if k == 'c':
        return z3.BoolVal(f.a[0])
    if k == 'raw':
        return f.a[0]
    if k == 'and':
        return z3.And([f_z3(eng, x, eps, pol) for x in f.a])
    if k == 'or':
        return z3.Or([f_z3(eng, x, eps, pol) for x in f.a])
    if k == 'not':
        return z3.Not(f_z3(eng, f.a[0], eps, not pol))
    op, a, b = f.a
    if isinstance(a, float) or isinstance(b, float):
        fa = float(a) if not isinstance(a, SymReal) else 0.0
        fb = float(b) if not isinstance(b, SymReal) else 0.0
        return z3.BoolVal({'<': fa < fb, '<=': fa <= fb, '>': fa > fb, '>=': fa >= fb, '==': fa == fb}[op])
    d = p_add(a.p if isinstance(a, SymReal) else p_const(a), b.p if isinstance(b, SymReal) else p_const(b), -1)
    if eps == 0:
        return eng.sign_z3(d, OPS[op])
    e = Fraction(eps) if pol else -Fraction(eps)
    if op in ('<', '<='):
        return eng.sign_z3(p_add(d, p_const(-e)), OPS[op])
    if op in ('>', '>='):
        return eng.sign_z3(p_add(d, p_const(e)), OPS[op])
    if pol:
        return z3.And(eng.sign_z3(p_add(d, p_const(-e)), OPS['<=']), eng.sign_z3(p_add(d, p_const(e)), OPS['>=']))
    return eng.sign_z3(d, ZERO)


def f_eval(f, eps, pol=True):
    """concrete evaluation, relaxed by eps"""
    k = f.k
    if k == 'c':
        return f.a[0]
    if k == 'and':
        return all(f_eval(x, eps, pol) for x in f.a)
    if k == 'or':
        return any(f_eval(x, eps, pol) for x in f.a)
    if k == 'not':
        return not f_eval(f.a[0], eps, not pol)
    op, a, b = f.a
    if isinstance(a, float) or isinstance(b, float):
        a, b = float(a), float(b)
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b}[op]
    sc = max(1, abs(a), abs(b))
    e = frac(eps) * sc
    if not pol:
        e = -e
    if op == '<':
        return a < b + e
    if op == '<=':
        return a <= b + e
    if op == '>':
        return a > b - e
    if op == '>=':
        return a >= b - e
    return abs(a - b) <= (e if pol else 0)


# ---------------------------------------------------------------- engine
class Engine:
    cur = None

    def __init__(self, max_decisions=20000, timeout_ms=20000, deadline=None):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.max_decisions = max_decisions
        self.deadline = deadline
        self.trace = []          # [kind, value, alternatives, level]
        self.level = 0
        self.vars_z3 = {}
        self.z3cache = {}
        self.stats = dict(paths=0, decisions=0, forks=0, queries=0, solver_s=0.0, obligations=0, discharged=0, unknown=0,
                          infeasible=0, budget=0)
        self.incomplete = []
        self.div_zero = 'raise'
        self.elim = False        # replace quotients by polynomials before the solver sees them
        self.cuts = True        # False: elementary functions stay uninterpreted (every decision on them is explored, nothing but their range is known)
        self.softsqrt = False    # square roots as a function that is approximated as closely as an obligation needs
        self.maxdeg = None       # comparisons of a higher degree are left open
        self.log = None
        self.forced = None       # journal of decisions to follow
        self.on_forced_end = None
        self.journal = None
        self.saved_model = None
        self.begin_path()

    # --- per path state
    def begin_path(self):
        Engine.cur = self
        self.pos = 0
        self.kinds = []       # kind per var id
        self.names = []
        self.inputs = []      # (name, SymReal, lo, hi)
        self.nondets = []     # recorded nondeterministic integer choices
        self.signs = {}
        self.aux_cache = {}
        self.nodes = []       # NaN-boxed nodes
        self.node_ids = {}
        self.model, self.saved_model = self.saved_model, None
        self.mvals = {}
        self.abort = None
        self.path_decs = 0
        self.aux_defs = {}
        self.reduced = {}
        self.path_abstract = False

    def z3var(self, i):
        k = self.kinds[i]
        z = self.vars_z3.get((i, k))
        if z is None:
            z = z3.ToReal(z3.Int('i%d' % i)) if k == 'int' else z3.Real('v%d' % i)
            self.vars_z3[(i, k)] = z
        return z

    def new_var(self, kind='real', name=None):
        self.kinds.append(kind)
        self.names.append(name)
        return len(self.kinds) - 1

    def p_z3(self, p):
        key = (tuple(p.items()), tuple(sorted({(v, self.kinds[v]) for m in p for v in m if self.kinds[v] != 'real'})))
        z = self.z3cache.get(key)
        if z is None:
            ts = []
            for m, c in p.items():
                cz = z3.RealVal(c) if isinstance(c, Fraction) else z3.RealVal(Fraction(c))
                if not m:
                    ts.append(cz)
                    continue
                prod = None
                for v in m:
                    prod = self.z3var(v) if prod is None else prod * self.z3var(v)
                ts.append(prod if c == 1 else cz * prod)
            z = z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
            if len(self.z3cache) > 200000:
                self.z3cache.clear()
            self.z3cache[key] = z
        return z

    def flatten(self, p):
        """p as numerator, [(denominator, power)] over the variables that are no quotients; the denominators are positive on the path"""
        vs = sorted({w for m in p for w in m if self.aux_defs.get(w, (None,))[0] == 'div'})
        if not vs:
            return p, []
        dens, top = [], {}
        index = {}
        for v in vs:
            kd = tuple(sorted(self.aux_defs[v][2].items()))
            if kd not in index:
                index[kd] = len(dens)
                dens.append(self.aux_defs[v][2])
        terms = []
        deg = [0] * len(dens)
        for m, c in p.items():
            base, e, nums = [], [0] * len(dens), []
            for w in m:
                d = self.aux_defs.get(w, (None,))
                if d[0] == 'div':
                    e[index[tuple(sorted(d[2].items()))]] += 1
                    nums.append(w)
                else:
                    base.append(w)
            terms.append(({tuple(base): c}, e, nums))
            deg = [max(x, y) for x, y in zip(deg, e)]
        pw = []
        for d, k in zip(dens, deg):
            l = [p_const(Fraction(1))]
            for _ in range(k):
                l.append(p_mul(l[-1], d))
            pw.append(l)
        # terms with the same quotients share the products
        groups = {}
        for t, e, nums in terms:
            g = groups.setdefault(tuple(nums), [{}, e])
            g[0] = p_add(g[0], t)
        r = {}
        for nums, (t, e) in groups.items():
            for w in nums:
                t = p_mul(t, self.aux_defs[w][1])
            for i in range(len(dens)):
                if deg[i] - e[i]:
                    t = p_mul(t, pw[i][deg[i] - e[i]])
            r = p_add(r, t)
        out = []
        for d, k in zip(dens, deg):
            while k:
                q = p_div_exact(r, d)
                if q is None:
                    break
                r, k = q, k - 1
            if k:
                out.append((d, k))
        return r, out

    def reduce(self, p):
        """polynomial of the same sign without the variables that stand for quotients"""
        ck = tuple(p.items())
        r = self.reduced.get(ck)
        if r is None:
            r = self.reduced[ck] = self.flatten(p)[0]
        return r

    def quotient(self, a, b):
        """a / b as a new variable with a positive denominator free of quotients (b is not zero on the path)"""
        an, ad = self.flatten(a)
        bn, bd = self.flatten(b)
        num, den = an, bn
        for d, k in bd:
            for _ in range(k):
                num = p_mul(num, d)
        for d, k in ad:
            for _ in range(k):
                den = p_mul(den, d)
        if not num:
            return SymReal({})
        g = p_gcd1(num, den)
        if g is not None:
            num, den = p_div_exact(num, g), p_div_exact(den, g)
        if p_isconst(den):
            return SymReal(p_scale(num, 1 / p_cval(den)))
        q = p_div_exact(num, den)
        if q is not None:
            return SymReal(q)
        if not self.decide_sign(den, POS):
            num, den = p_scale(num, -1), p_scale(den, -1)
        kb, s = p_norm(den)
        lb = next(c for m, c in sorted(den.items()) if m)
        lb = abs(lb)
        num, den = p_scale(num, 1 / lb), p_scale(den, 1 / lb)
        key = ('div', tuple(sorted(num.items())), tuple(sorted(den.items())))
        v = self.aux_cache.get(key)
        if v is None:
            v = self.new_var()
            self.aux_cache[key] = v
            self.aux_defs[v] = ('div', num, den)
        return SymReal({(v,): Fraction(1)})

    def sign_z3(self, p, S):
        """z3 formula: sign(p) in S"""
        if self.elim:
            p = self.reduce(p)
        if S == 7:
            return z3.BoolVal(True)
        if S == 0:
            return z3.BoolVal(False)
        if p_isconst(p):
            c = p_cval(p)
            s = ZERO if c == 0 else (POS if c > 0 else NEG)
            return z3.BoolVal(bool(s & S))
        if p_deg(p) == 2:
            fs = p_factor2(p)
            if fs is not None:
                return self._prod_sign(self.p_z3(fs[0]), self.p_z3(fs[1]), S)
        e = self.p_z3(p)
        return self._lin_sign(e, S)

    @staticmethod
    def _lin_sign(e, S):
        if S == NEG: return e < 0
        if S == NEG | ZERO: return e <= 0
        if S == ZERO: return e == 0
        if S == POS: return e > 0
        if S == POS | ZERO: return e >= 0
        return e != 0

    @staticmethod
    def _prod_sign(a, b, S):
        parts = []
        if S & POS:
            parts += [z3.And(a > 0, b > 0), z3.And(a < 0, b < 0)]
        if S & NEG:
            parts += [z3.And(a > 0, b < 0), z3.And(a < 0, b > 0)]
        if S & ZERO:
            parts += [a == 0, b == 0]
        return z3.Or(parts)

    # --- solver
    def check(self, *extra):
        t = time.time()
        self.stats['queries'] += 1
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        if self.elim:
            # few variables and high degrees: nlsat at once
            s2 = z3.SolverFor('QF_NRA')
            s2.set('timeout', self.timeout_ms)
            s2.add(self.solver.assertions())
            r = s2.check()
            m = s2.model() if r == z3.sat else None
        else:
            r = self.solver.check()
            m = None
        if r == z3.unknown and not self.elim:
            # second opinion: fresh nlsat-based solver
            s2 = z3.SolverFor('QF_NRA')
            s2.set('timeout', self.timeout_ms)
            s2.add(self.solver.assertions())
            r = s2.check()
            m = s2.model() if r == z3.sat else None
        elif not self.elim:
            m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r, m

    def set_model(self, m):
        self.model = m
        self.mvals = {}

    def function_cuts(self, m):
        """facts about the elementary functions that the model m of the path contradicts"""
        def num(z):
            x = m.eval(z, model_completion=True)
            if z3.is_algebraic_value(x):
                x = x.approx(30)
            return x.as_fraction()
        out = []
        if not self.cuts:
            return out
        for v, d in list(self.aux_defs.items()):
            if len(d) != 2 or d[0] not in FUNCS:
                continue
            zp, zv = self.p_z3(d[1]), self.z3var(v)
            try:
                a, y = num(zp), num(zv)
                a = Fraction(round(a * 2 ** 40), 2 ** 40)
                f = FUNCS[d[0]](float(a))
            except (ValueError, OverflowError, z3.Z3Exception, AttributeError):
                continue
            if f != f or f in (math.inf, -math.inf) or abs(float(y) - f) <= 1e-6 * (1 + abs(f)):
                continue
            e = Fraction(1, 10 ** 9) * (1 + int(abs(f)))
            lo, hi, za = z3val(Fraction(f) - e), z3val(Fraction(f) + e), z3val(a)
            if d[0] in ('log', 'log2', 'exp', 'expm1', 'tanh', 'arctan', 'sqrtf'):
                out += [z3.Implies(zp >= za, zv >= lo), z3.Implies(zp <= za, zv <= hi)]
            if d[0] == 'log':
                out.append(zv * za <= zp - za + z3val(a * (Fraction(f) + e)))
                for r in (Fraction(5, 4), Fraction(33, 32)):
                    b, c = a / r, a * r
                    lb, lc = Fraction(math.log(b)), Fraction(math.log(c))
                    out.append(z3.Implies(z3.And(zp >= z3val(b), zp <= z3val(c)), zv * z3val(c - b) >= z3val(lc - lb) * (zp - z3val(b)) + z3val((lb - e) * (c - b))))
            elif d[0] == 'sqrtf' and a > 0:
                # tangent of a concave function at f*f, secants
                q = Fraction(f)
                out.append(2 * z3val(q) * zv <= zp + z3val(q * q + e))
                for r in (2, Fraction(33, 32)):
                    b, c = q / r, q * r
                    out.append(z3.Implies(z3.And(zp >= z3val(b * b), zp <= z3val(c * c)), zv * z3val(b + c) >= zp + z3val(b * c - e)))
            elif d[0] == 'exp':
                out.append(zv >= z3val(Fraction(f)) * (1 + zp - za) - z3val(e))
            elif d[0] in ('sin', 'cos', 'tanh', 'arctan'):
                out += [z3.Implies(zp >= za, z3.And(zv - hi <= zp - za, lo - zv <= zp - za)), z3.Implies(zp <= za, z3.And(zv - hi <= za - zp, lo - zv <= za - zp))]
        return out

    def refined_check(self, *extra, limit=30):
        """check; the elementary functions are approximated as closely as the answer needs"""
        r, m = self.check(*extra)
        t = time.time()
        for _ in range(20):
            if r != z3.sat or time.time() - t > limit or not any(len(d) == 2 and d[0] in FUNCS for d in self.aux_defs.values()):
                break
            cuts = self.function_cuts(m)
            if not cuts:
                break
            self.solver.add(*cuts)
            self.stats['function_cuts'] = self.stats.get('function_cuts', 0) + len(cuts)
            r, m = self.check(*extra)
        return r, m

    def record(self, entry):
        self.trace.append(entry)
        self.pos += 1
        if self.journal is not None:
            self.journal(entry)
        if self.forced is not None and not self.forced:
            self.on_forced_end()

    def forced_next(self):
        return self.forced.pop(0) if self.forced else None

    def model_val(self, v):
        if v in self.mvals:
            return self.mvals[v]
        r = None
        if self.model is not None:
            x = self.model.eval(self.z3var(v), model_completion=False)
            if z3.is_rational_value(x):
                r = x.as_fraction()
            elif v in self.aux_defs:
                d = self.aux_defs[v]
                if d[0] == 'div':
                    n, q = self.model_eval(d[1]), self.model_eval(d[2])
                    if n is not None and q:
                        r = n / q
                elif d[0] == 'sqrt':
                    n = self.model_eval(d[1])
                    if n is not None and n >= 0:
                        r = f_sqrt(n)
        self.mvals[v] = r
        return r

    def model_eval(self, p):
        if self.model is None:
            return None
        t = Fraction(0)
        for m, c in p.items():
            x = c
            for v in m:
                y = self.model_val(v)
                if y is None:
                    return None
                x = x * y
            t += x
        return t

    def replaying(self):
        return self.pos < len(self.trace)

    def push_assert(self, z):
        self.solver.push()
        self.level += 1
        self.solver.add(z)

    def assume_aux(self, *zs):
        """definitional constraint; skipped while replaying the prefix (it is still in the solver)"""
        if not self.replaying():
            self.solver.add(*zs)

    def tick(self):
        self.path_decs += 1
        if self.path_decs > self.max_decisions:
            raise Budget('decision budget')
        if self.deadline is not None and (self.path_decs & 63) == 0 and time.time() > self.deadline:
            raise Budget('deadline')

    def decide_sign(self, p, S):
        """does sign(p) belong to S?  (forks)"""
        if p_isconst(p):
            c = p_cval(p)
            return bool((ZERO if c == 0 else (POS if c > 0 else NEG)) & S)
        if self.elim:
            p = self.reduce(p)
            if p_isconst(p):
                c = p_cval(p)
                return bool((ZERO if c == 0 else (POS if c > 0 else NEG)) & S)
        key, sg = p_norm(p)
        if sg < 0:
            S = (S & ZERO) | (POS if S & NEG else 0) | (NEG if S & POS else 0)
            p = dict(key)
        else:
            p = dict(key)
        allowed = self.signs.get(key, 7)
        if allowed & ~S == 0:
            return True
        if allowed & S == 0:
            return False
        self.tick()
        if self.maxdeg and p_deg(p) > self.maxdeg:
            # a comparison of a degree out of reach: both outcomes are followed (an over-approximation)
            self.path_abstract = True
            z = z3.BoolVal(True)
            if self.replaying():
                v = self.trace[self.pos][1]
                self.pos += 1
            elif self.forced:
                v = bool(self.forced_next()[1])
                self.push_assert(z)
                self.record([None, v, [], self.level, None])
            else:
                v = True
                self.stats['decisions'] += 1
                self.stats['abstracted'] = self.stats.get('abstracted', 0) + 1
                self.push_assert(z)
                self.record([None, True, [(False, z)], self.level, self.model])
            self.signs[key] = allowed & (S if v else ~S & 7)
            return v
        if self.replaying():
            d = self.trace[self.pos]
            self.pos += 1
            v = d[1]
        else:
            self.stats['decisions'] += 1
            zt = self.sign_z3(p, S)
            if self.forced:
                v = bool(self.forced_next()[1])
                self.push_assert(zt if v else z3.Not(zt))
                self.signs[key] = allowed & (S if v else ~S & 7)
                self.record([None, v, [], self.level, None])
                return v
            ev = self.model_eval(p)
            mt = mf = None
            ft = ff = None
            if ev is not None:
                s = ZERO if ev == 0 else (POS if ev > 0 else NEG)
                if s & S:
                    ft = True
                    mt = self.model
                else:
                    ff = True
                    mf = self.model
            if ft is None:
                r, mt = self.check(zt)
                ft = r != z3.unsat
                if r == z3.unknown:
                    self.incomplete.append('unknown branch')
            if ff is None:
                if not ft:
                    ff = True
                    mf = self.model
                else:
                    r, mf = self.check(z3.Not(zt))
                    ff = r != z3.unsat
                    if r == z3.unknown:
                        self.incomplete.append('unknown branch')
            if ft and ff:
                self.stats['forks'] += 1
                v = True
                self.push_assert(zt)
                if self.log: self.log(zt)
                if mt is not self.model:
                    self.set_model(mt)
                self.record([None, True, [(False, z3.Not(zt))], self.level, mf])
            else:
                v = bool(ft)
                if self.model is None:
                    self.set_model(mt if v else mf)
                self.record([None, v, [], self.level, None])
        self.signs[key] = allowed & (S if v else ~S & 7)
        return v

    def choose(self, n, record=True):
        """nondeterministic choice in range(n), all explored (environment stub)"""
        if n <= 0:
            raise Unsupported('empty choice')
        self.tick()
        if self.replaying():
            v = self.trace[self.pos][1]
            self.pos += 1
        else:
            v = 0
            if self.forced:
                v = self.forced_next()[1]
                self.record(['choose', v, [], self.level, None])
            else:
                if n > 1:
                    self.push_assert(z3.BoolVal(True))
                self.record(['choose', 0, [(i, z3.BoolVal(True)) for i in range(n - 1, 0, -1)], self.level, None])
        if record:
            self.nondets.append(v)
        return v

    def concretise_int(self, p):
        """fork over the feasible integer values of p (which must be integral)"""
        if p_isconst(p):
            c = p_cval(p)
            if c.denominator != 1:
                raise Unsupported('non integral index')
            return int(c)
        for _ in range(10000):
            if self.replaying():
                # value tried is stored in trace
                d = self.trace[self.pos]
                if not (isinstance(d[0], tuple) and d[0][0] == 'int'):
                    raise Unsupported('replay mismatch')
                val, v = d[0][1], d[1]
                self.pos += 1
                self.tick()
            elif self.forced:
                val, v = self.forced_next()
                ze = self.sign_z3(p_add(p, p_const(Fraction(-val))), ZERO)
                self.push_assert(ze if v else z3.Not(ze))
                self.record([('int', val), v, [], self.level, None])
            else:
                self.tick()
                ev = self.model_eval(p)
                if ev is None or ev.denominator != 1:
                    r, m = self.check()
                    if r != z3.sat:
                        raise PathEnd()
                    self.set_model(m)
                    ev = self.model_eval(p)
                    if ev is None or ev.denominator != 1:
                        raise Unsupported('cannot concretise')
                val = int(ev)
                ze = self.sign_z3(p_add(p, p_const(Fraction(-val))), ZERO)
                r, mf = self.check(z3.Not(ze))
                self.stats['decisions'] += 1
                v = True
                if r != z3.unsat:
                    self.stats['forks'] += 1
                    self.push_assert(ze)
                    self.record([('int', val), True, [(False, z3.Not(ze))], self.level, mf])
                else:
                    self.record([('int', val), True, [], self.level, None])
            d = p_add(p, p_const(Fraction(-val)))
            key, _s = p_norm(d)
            self.signs[key] = self.signs.get(key, 7) & (ZERO if v else 5)
            if v:
                return val
        raise Unsupported('too many integer values')

    def assume(self, f):
        """precondition"""
        if isinstance(f, bool):
            f = F('c', f)
        if f.k != 'c' and self.replaying():
            self.pos += 1
            return
        if f.k == 'c':
            if not f.a[0]:
                raise PathEnd()
            return
        z = f_z3(self, f)
        self.solver.add(z)
        if self.forced:
            self.forced_next()
        else:
            r, m = self.check()
            if r == z3.unsat:
                self.stats['infeasible'] += 1
                raise PathEnd()
            self.set_model(m)
        self.record(['assume', True, [], self.level, None])

    def backtrack(self):
        """prepare the next path; False when the exploration is complete"""
        while self.trace:
            d = self.trace[-1]
            if d[2]:
                while self.level >= d[3] and self.level > 0:
                    self.solver.pop()
                    self.level -= 1
                val, z = d[2].pop()
                self.push_assert(z)
                d[1] = val
                self.saved_model = d[4] if not d[2] else None
                if d[0] != 'choose':
                    d[2] = []
                else:
                    self.saved_model = None
                self.begin_path()
                return True
            self.trace.pop()
        return False


# ---------------------------------------------------------------- symbolic reals
BIG = 1e290


def _coerce(o):
    """-> polynomial, or a float for nan/inf/huge, or None"""
    if isinstance(o, SymReal):
        return o.p
    if isinstance(o, bool):
        return p_const(Fraction(int(o)))
    if isinstance(o, int):
        return p_const(Fraction(o))
    if isinstance(o, float):
        if o != o or abs(o) > BIG:
            return o
        f = Engine.cur.unbox(o) if False else None
        return p_const(Fraction(o))
    if isinstance(o, Fraction):
        return p_const(o)
    if isinstance(o, SymBool):
        return p_const(Fraction(int(bool(o))))
    t = type(o)
    if t.__module__ == 'numpy':
        if hasattr(o, 'ndim') and o.ndim == 0:
            return _coerce(o.item())
    return None


def mk(p, isint=False):
    return SymReal(p, isint)


class SymBool:
    __slots__ = ('p', 'S')

    def __init__(self, p, S):
        self.p, self.S = p, S

    def __bool__(self):
        return Engine.cur.decide_sign(self.p, self.S)

    def __and__(self, o): return bool(self) & bool(o)
    __rand__ = __and__
    def __or__(self, o): return bool(self) | bool(o)
    __ror__ = __or__
    def __xor__(self, o): return bool(self) ^ bool(o)
    __rxor__ = __xor__
    def __invert__(self): return not bool(self)
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __add__(self, o): return int(bool(self)) + o
    __radd__ = __add__
    def __mul__(self, o): return int(bool(self)) * o
    __rmul__ = __mul__
    def __eq__(self, o): return bool(self) == o
    def __hash__(self): return hash(bool(self))
    def logical_not(self): return not bool(self)


def symcmp(op, a, b):
    """a, b: polynomials or float (nan/inf/huge)"""
    fa, fb = isinstance(a, float), isinstance(b, float)
    if fa or fb:
        x = a if fa else 0.0
        y = b if fb else 0.0
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
    d = p_add(a, b, -1)
    S = OPS[op]
    if p_isconst(d):
        c = p_cval(d)
        return bool((ZERO if c == 0 else (POS if c > 0 else NEG)) & S)
    d, S, known = simplify_cmp(d, a, b, S)
    if known is not None:
        return known
    if p_isconst(d):
        c = p_cval(d)
        return bool((ZERO if c == 0 else (POS if c > 0 else NEG)) & S)
    return SymBool(d, S)


def simplify_cmp(d, a, b, S):
    """rewrite comparisons between square roots / quotients into comparisons of their arguments where exact"""
    eng = Engine.cur
    if len(d) <= 2 and eng.aux_defs:
        vs = [(m, c) for m, c in d.items()]
        roots = [(m[0], c) for m, c in vs if len(m) == 1 and eng.aux_defs.get(m[0], (None,))[0] == 'sqrt']
        if roots and len(roots) == len(vs) == 2:
            (v1, c1), (v2, c2) = roots
            if (c1 > 0) != (c2 > 0):
                if c1 < 0:
                    v1, c1, v2, c2 = v2, c2, v1, c1
                # c1*sqrt(A) - |c2|*sqrt(B)
                A, B = eng.aux_defs[v1][1], eng.aux_defs[v2][1]
                return p_add(p_scale(A, c1 * c1), p_scale(B, -c2 * c2)), S, None
            # same sign: sum of nonneg
            if c1 > 0 and not (S & (ZERO | POS)):
                return d, S, False
        elif len(roots) == 1:
            v, c = roots[0]
            k = d.get((), Fraction(0))
            if len(vs) == 1 or () in d:
                # c*s + k  vs 0
                if c < 0:
                    c, k = -c, -k
                    S = (S & ZERO) | (POS if S & NEG else 0) | (NEG if S & POS else 0)
                t = -k / c      # s ? t
                if t < 0:
                    return d, S, bool(S & POS)
                return p_add(eng.aux_defs[v][1], p_const(-t * t)), S, None
    return d, S, None


def _elementwise(o, f, cmp=False):
    """number (op) array: numpy leaves the operation to the number because of __array_priority__"""
    if type(o).__name__ not in ('ndarray', 'SymArray') or not hasattr(o, 'ravel'):
        return NotImplemented
    import numpy
    r = numpy.empty(o.shape, dtype=object)
    for i in numpy.ndindex(o.shape):
        e = o[i]
        v = f(e.item() if isinstance(e, numpy.generic) else e)
        r[i] = bool(v) if cmp else v
    return r.astype(bool) if cmp else r


class SymImag:
    """purely imaginary number; only its absolute value is known"""
    def __init__(self, x):
        self.x = x

    def __abs__(self):
        return abs(self.x)


class SymReal:
    __slots__ = ('p', 'isint')
    __array_priority__ = 1000

    def __init__(self, p, isint=False):
        self.p = p
        self.isint = isint

    # arithmetic
    def _bin(self, o, f):
        q = _coerce(o)
        if q is None:
            return NotImplemented
        return f(self.p, q, self.isint and getattr(o, 'isint', isinstance(o, int)))

    def __add__(self, o):
        q = _coerce(o)
        if q is None: return _elementwise(o, lambda e: self + e)
        if isinstance(q, float): return q
        return SymReal(p_add(self.p, q), self.isint and _isint(o))
    __radd__ = __add__

    def __sub__(self, o):
        q = _coerce(o)
        if q is None: return _elementwise(o, lambda e: self - e)
        if isinstance(q, float): return -q
        return SymReal(p_add(self.p, q, -1), self.isint and _isint(o))

    def __rsub__(self, o):
        q = _coerce(o)
        if q is None: return _elementwise(o, lambda e: e - self)
        if isinstance(q, float): return q
        return SymReal(p_add(q, self.p, -1), self.isint and _isint(o))

    def __mul__(self, o):
        if isinstance(o, complex) and o.real == 0: return SymImag(self * o.imag)
        q = _coerce(o)
        if q is None: return _elementwise(o, lambda e: self * e)
        if isinstance(q, float):
            if q != q: return q
            if bool(symcmp('>', self.p, {})): return q
            if bool(symcmp('<', self.p, {})): return -q
            return math.nan if math.isinf(q) else 0.0
        if p_deg(self.p) + p_deg(q) > 2:
            fold_zero(self.p); fold_zero(q)
        return SymReal(p_mul(self.p, q), self.isint and _isint(o))
    __rmul__ = __mul__

    def __neg__(self):
        return SymReal(p_scale(self.p, -1), self.isint)

    def __pos__(self):
        return self

    def __truediv__(self, o):
        q = _coerce(o)
        if q is None: return _elementwise(o, lambda e: self / e)
        return sym_div(self.p, q)

    def __rtruediv__(self, o):
        q = _coerce(o)
        if q is None: return _elementwise(o, lambda e: e / self)
        return sym_div(q, self.p)

    def __floordiv__(self, o):
        return sym_floor(self / o)

    def __rfloordiv__(self, o):
        return sym_floor(o / self)

    def __mod__(self, o):
        q = sym_floor(self / o)
        return self - o * q

    def __divmod__(self, o):
        q = sym_floor(self / o)
        return q, self - o * q

    def __pow__(self, o, mod=None):
        return sym_pow(self, o)

    def __rpow__(self, o):
        return sym_pow(o, self)

    def __abs__(self):
        return self if bool(symcmp('>=', self.p, {})) else -self

    # comparisons
    def _cmp(self, op, o):
        q = _coerce(o)
        if q is None:
            return _elementwise(o, lambda e: self._cmp(op, e), True)
        return symcmp(op, self.p, q)

    def __lt__(self, o): return self._cmp('<', o)
    def __le__(self, o): return self._cmp('<=', o)
    def __gt__(self, o): return self._cmp('>', o)
    def __ge__(self, o): return self._cmp('>=', o)

    def __eq__(self, o):
        return self._cmp('==', o)

    def __ne__(self, o):
        return self._cmp('!=', o)

    def __bool__(self):
        return bool(symcmp('!=', self.p, {}))

    def __hash__(self):
        if p_isconst(self.p):
            return hash(p_cval(self.p))
        if self.isint:
            return hash(Engine.cur.concretise_int(self.p))
        return 7919  # all symbolic reals collide: equality decides

    # conversions
    def __index__(self):
        if not self.isint and not (p_isconst(self.p) and p_cval(self.p).denominator == 1):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return Engine.cur.concretise_int(self.p)

    def __int__(self):
        if self.isint:
            return Engine.cur.concretise_int(self.p)
        return sym_trunc(self)

    def __trunc__(self): return sym_trunc(self)
    def __floor__(self): return sym_floor(self, toint=True)
    def __ceil__(self): return -sym_floor(-self, toint=True)

    def __round__(self, n=None):
        if n is None or n == 0:
            r = sym_floor(self + Fraction(1, 2), toint=True)
            if r % 2 and bool(symcmp('==', self.p, p_const(Fraction(r) - Fraction(1, 2)))):
                r -= 1
            return r
        raise Unsupported('round')

    def __float__(self):
        if p_isconst(self.p):
            return float(p_cval(self.p))
        if Engine.cur.allow_box:
            return Engine.cur.box(self)
        raise Unsupported('float() of a symbolic value')

    def __repr__(self):
        if p_isconst(self.p):
            return 'S(%s)' % p_cval(self.p)
        return 'S(' + ' + '.join('%s*%s' % (c, '*'.join('v%d' % v for v in m)) if m else str(c) for m, c in self.p.items()) + ')'

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # numpy object-dtype ufunc hooks
    def sqrt(self): return sym_sqrt(self)
    def fabs(self): return abs(self)
    def conjugate(self): return self
    def copy(self): return self
    def item(self): return self
    def square(self): return self * self
    def floor(self): return sym_floor(self)
    def ceil(self): return -sym_floor(-self)
    def rint(self): return self.__round__()
    def isnan(self): return False
    def exp(self): return sym_fun('exp', self)
    def expm1(self): return sym_fun('expm1', self)
    def log(self): return sym_fun('log', self)
    def log2(self): return sym_fun('log2', self)
    def sin(self): return sym_fun('sin', self)
    def cos(self): return sym_fun('cos', self)
    def tanh(self): return sym_fun('tanh', self)
    def arctan(self): return sym_fun('arctan', self)
    def erfc(self): return sym_fun('erfc', self)
    def tolist(self): return self
    def is_integer(self):
        return self.isint
    @property
    def real(self): return self
    @property
    def imag(self): return 0.0
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


def _isint(o):
    return isinstance(o, (int,)) or (isinstance(o, SymReal) and o.isint)


def fold_zero(p):
    pass


def sym_div(a, b):
    """a, b polynomial or special float"""
    eng = Engine.cur
    if isinstance(b, float):
        if b != b: return b
        if isinstance(a, float): return math.nan
        return SymReal({})
    if isinstance(a, float):
        if a != a: return a
        if bool(symcmp('==', b, {})):
            if eng.div_zero == 'raise': raise ZeroDivisionError('float division by zero')
            return a
        return a if bool(symcmp('>', b, {})) else -a
    if p_isconst(b):
        c = p_cval(b)
        if c == 0:
            return div_by_zero(a)
        return SymReal(p_scale(a, 1 / c))
    if eng.elim:
        if bool(symcmp('==', b, {})):
            return div_by_zero(a)
        return eng.quotient(a, b) if a else SymReal({})
    if bool(symcmp('==', b, {})):
        return div_by_zero(a)
    if not a:
        return SymReal({})
    if not eng.cuts and len(b) == 1 and next(iter(b.values())) == 1 and eng.aux_defs.get(next(iter(b))[0], (None,))[0] == 'sqrtf' and len(next(iter(b))) == 1:
        # the functions are open: so is the inverse of a root, only its sign is known
        key = ('inv', next(iter(b))[0])
        v = eng.aux_cache.get(key)
        if v is None:
            v = eng.aux_cache[key] = eng.new_var()
            eng.assume_aux(eng.z3var(v) > 0)
        return SymReal(p_mul(a, {(v,): Fraction(1)}))
    # constant quotient?
    ka, sa = p_norm(a)
    kb, sb = p_norm(b)
    la = next((c for m, c in sorted(a.items()) if m), None)
    lb = next(c for m, c in sorted(b.items()) if m)
    if ka == kb and la is not None:
        return SymReal(p_const(la / lb))
    if p_deg(b) == 1:
        q = p_div_lin(a, b)
        if q is not None:
            return SymReal(q)
    # canonical: numerator / normalized denominator
    bn = dict(kb)
    an = p_scale(a, 1 / lb)
    key = ('div', tuple(sorted(an.items())), kb)
    v = eng.aux_cache.get(key)
    if v is None:
        v = eng.new_var()
        eng.aux_cache[key] = v
        eng.aux_defs[v] = ('div', an, bn)
        zv = eng.z3var(v)
        eng.assume_aux(zv * eng.p_z3(bn) == eng.p_z3(an))
    return SymReal({(v,): Fraction(1)})


def div_by_zero(a):
    eng = Engine.cur
    if eng.div_zero == 'raise':
        raise ZeroDivisionError('float division by zero')
    if bool(symcmp('==', a, {})):
        return math.nan
    return math.inf if bool(symcmp('>', a, {})) else -math.inf


def sym_sqrt(x):
    if isinstance(x, float):
        return math.sqrt(x) if x >= 0 else math.nan
    p = x.p
    eng = Engine.cur
    if p_isconst(p):
        c = p_cval(p)
        if c < 0:
            if eng.div_zero == 'raise': raise ValueError('math domain error')
            return math.nan
        s = f_sqrt(c)
        return SymReal(p_const(s)) if s is not None else SymReal(p_const(Fraction(math.sqrt(c))))
    r = p_sqrt(p)
    if r is not None:
        return abs(SymReal(r))
    if bool(symcmp('<', p, {})):
        if eng.div_zero == 'raise': raise ValueError('math domain error')
        return math.nan
    if eng.softsqrt:
        return sym_fun('sqrtf', x)
    key = ('sqrt', tuple(sorted(p.items())))
    v = eng.aux_cache.get(key)
    if v is None:
        v = eng.new_var()
        eng.aux_cache[key] = v
        eng.aux_defs[v] = ('sqrt', p)
        zv = eng.z3var(v)
        eng.assume_aux(eng.sign_z3(p_add({(v, v): Fraction(1)}, p, -1), ZERO) if eng.elim else zv * zv == eng.p_z3(p), zv >= 0)
    return SymReal({(v,): Fraction(1)})


def z3val(q):
    return z3.RealVal(str(q))


FUNCS = {'exp': math.exp, 'expm1': math.expm1, 'log': math.log, 'log2': math.log2, 'sin': math.sin, 'cos': math.cos, 'tanh': math.tanh, 'arctan': math.atan, 'erfc': math.erfc, 'sqrtf': math.sqrt}


def sym_fun(name, x):
    """uninterpreted (functionally consistent) real function"""
    eng = Engine.cur
    if p_isconst(x.p):
        f = FUNCS[name]
        return SymReal(p_const(Fraction(f(float(p_cval(x.p))))))
    if name in ('sin', 'cos', 'tanh', 'arctan') and x.p[min(x.p)] < 0:   # odd and even functions
        v = sym_fun(name, -x)
        return v if name == 'cos' else -v
    key = (name, tuple(sorted(x.p.items())))
    v = eng.aux_cache.get(key)
    if v is None:
        v = eng.new_var()
        eng.aux_cache[key] = v
        eng.aux_defs[v] = (name, x.p)
        zv = eng.z3var(v)
        cons = {'exp': [zv > 0], 'tanh': [zv > -1, zv < 1], 'sin': [zv >= -1, zv <= 1], 'cos': [zv >= -1, zv <= 1],
                'expm1': [zv > -1], 'sqrtf': [zv >= 0], 'erfc': [zv > 0, zv < 2]}.get(name, [])
        # monotone functions: consistent order with the other applications on this path
        if eng.cuts and name in ('exp', 'log', 'tanh', 'expm1', 'arctan', 'log2', 'sqrtf'):
            for (n2, a2), v2 in [(k, w) for k, w in eng.aux_cache.items() if k[0] == name and w != v and len(k) == 2]:
                pa = p_add(x.p, dict(a2), -1)
                z2 = eng.z3var(v2)
                cons += [eng.sign_z3(pa, POS) == (zv > z2), eng.sign_z3(pa, ZERO) == (zv == z2)]
        if not eng.cuts:
            pass
        elif name == 'exp':
            cons += [eng.sign_z3(x.p, POS) == (zv > 1), eng.sign_z3(x.p, ZERO) == (zv == 1)]
        elif name == 'sqrtf':
            cons += [eng.sign_z3(x.p, ZERO) == (zv == 0)]
        elif name in ('log', 'log2'):
            x1 = p_add(x.p, p_const(Fraction(-1)))
            cons += [eng.sign_z3(x1, POS) == (zv > 0), eng.sign_z3(x1, ZERO) == (zv == 0)]
        if cons:
            eng.assume_aux(*cons)
    return SymReal({(v,): Fraction(1)})


def sym_pow(a, b):
    qa, qb = _coerce(a), _coerce(b)
    if qa is None or qb is None:
        return NotImplemented
    if isinstance(qb, float) or isinstance(qa, float):
        raise Unsupported('pow special')
    if not p_isconst(qb):
        raise Unsupported('symbolic exponent')
    e = p_cval(qb)
    x = a if isinstance(a, SymReal) else SymReal(qa)
    if e.denominator == 1 and 0 <= e <= 8:
        r = SymReal(p_const(Fraction(1)), x.isint)
        for _ in range(int(e)):
            r = r * x
        return r
    if e.denominator == 1 and -8 <= e < 0:
        return 1 / sym_pow(a, -e)
    if e == Fraction(1, 2):
        return sym_sqrt(x)
    if e == Fraction(-1, 2):
        return 1 / sym_sqrt(x)
    if e.denominator == 2 and 0 < e <= 8:
        return sym_pow(x, Fraction(e.numerator - 1, 2)) * sym_sqrt(x)
    if e == Fraction(1, 4):
        return sym_sqrt(sym_sqrt(x))
    if e == Fraction(1 / 3.0) or e == Fraction(1, 3):
        return sym_root(x, 3)
    raise Unsupported('pow exponent %s' % e)


def sym_root(x, n):
    eng = Engine.cur
    p = x.p
    if p_isconst(p):
        return SymReal(p_const(Fraction(float(p_cval(p)) ** (1.0 / n))))
    key = ('root%d' % n, tuple(sorted(p.items())))
    v = eng.aux_cache.get(key)
    if v is None:
        v = eng.new_var()
        eng.aux_cache[key] = v
        eng.aux_defs[v] = ('root', p)
        zv = eng.z3var(v)
        eng.assume_aux(eng.sign_z3(p_add({(v,) * n: Fraction(1)}, p, -1), ZERO), zv >= 0)
    return SymReal({(v,): Fraction(1)})


def sym_floor(x, toint=False):
    """floor: fresh integer variable k with k <= x < k+1, then concretised by forking"""
    if isinstance(x, (int, float, Fraction)):
        r = math.floor(x)
        return r if toint else (float(r) if isinstance(x, float) else r)
    p = x.p
    if p_isconst(p):
        return math.floor(p_cval(p))
    if x.isint:
        return x
    eng = Engine.cur
    key = ('floor', tuple(sorted(p.items())))
    v = eng.aux_cache.get(key)
    if v is None:
        v = eng.new_var('int')
        eng.aux_cache[key] = v
        zv = eng.z3var(v)
        eng.assume_aux(eng.sign_z3(p_add({(v,): Fraction(1)}, p, -1), NEG | ZERO), eng.sign_z3(p_add(p_add(p, {(v,): Fraction(1)}, -1), p_const(Fraction(-1))), NEG))
    if toint:
        return eng.concretise_int({(v,): Fraction(1)})
    return SymReal({(v,): Fraction(1)}, True)


def sym_trunc(x):
    if bool(symcmp('>=', x.p, {})):
        return int(sym_floor(x, toint=True))
    return -int(sym_floor(-x, toint=True))


# ---------------------------------------------------------------- NaN boxes (for the compiled core)
import struct
TAG = 0x7FFA
_pack = struct.Struct('<d')
_packq = struct.Struct('<Q')


def is_box_bits(b):
    return (b >> 48) == TAG


def f2b(f):
    return _packq.unpack(_pack.pack(f))[0]


def b2f(b):
    return _pack.unpack(_packq.pack(b))[0]


def _box(self, s):
    if p_isconst(s.p):
        c = p_cval(s.p)
        f = float(c)
        if Fraction(f) == c:
            return f
    key = tuple(sorted(s.p.items()))
    i = self.node_ids.get(key)
    if i is None:
        i = len(self.nodes)
        self.nodes.append(s)
        self.node_ids[key] = i
    return b2f((TAG << 48) | i)


def _unbox(self, f):
    """double -> SymReal or the float itself"""
    if f == f:
        return f
    b = f2b(f)
    if is_box_bits(b):
        return self.nodes[b & 0xFFFFFFFFFFFF]
    return f


Engine.box = _box
Engine.unbox = _unbox
Engine.allow_box = False
