"""Helpers shared by the harnesses: oracles written from the documentation, as formulas over the observed results."""
import os, sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
import core
from core import SymReal, le, lt, ge, gt, eq, ne, all_, any_, not_, implies, iff
from runner import Task

TOL = Fraction(1, 10 ** 6)
half = Fraction(1, 2)


def near(a, b, tol=TOL):
    """a == b up to the rounding of constants folded in floating point"""
    a, b = R(a), R(b)
    if isinstance(a, float) or isinstance(b, float):
        return eq(a, b)
    d = a - b
    if isinstance(d, SymReal) and core.Engine.cur.elim and not core.Engine.cur.reduce(d.p):
        return eq(d, d)     # the same rational function
    return all_([le(a - b, tol), le(b - a, tol)])


def R(x):
    """exact value of an observed number"""
    if isinstance(x, SymReal):
        return x
    if hasattr(x, 'item'):
        x = x.item()
        if isinstance(x, SymReal):
            return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        return x if (x != x or x in (float('inf'), float('-inf'))) else Fraction(x)
    return x


def isnum(x):
    x = R(x)
    return not isinstance(x, float)


def ints(x):
    return [int(e) for e in x]


def partition(clusters, n, noise=(), allow_empty=False):
    """every index of range(n) occurs exactly once"""
    seen = [int(i) for c in clusters for i in c] + [int(i) for i in noise]
    return sorted(seen) == list(range(n)) and (allow_empty or all(len(c) > 0 for c in clusters))


def labels_of(clusters, n):
    lab = [None] * n
    for k, c in enumerate(clusters):
        for i in c:
            lab[int(i)] = k
    return lab


# ---------------------------------------------------------------- metrics as terms without branching on the code under test
def d2(a, b):
    s = Fraction(0)
    for x, y in zip(a, b):
        t = R(x) - R(y)
        s = s + t * t
    return s


def max_f(xs, r):
    """formula: r is the maximum of xs"""
    return all_([all_([ge(r, x) for x in xs]), any_([eq(r, x) for x in xs])])


def min_f(xs, r):
    return all_([all_([le(r, x) for x in xs]), any_([eq(r, x) for x in xs])])


def abs_(x):
    """absolute value; forks on the sign (on the oracle side)"""
    x = R(x)
    return x if x >= 0 else -x


def manhattan(a, b):
    s = Fraction(0)
    for x, y in zip(a, b):
        s = s + abs_(R(x) - R(y))
    return s


def chebyshev(a, b):
    m = Fraction(0)
    for x, y in zip(a, b):
        t = abs_(R(x) - R(y))
        if t > m:
            m = t
    return m


DIST = {'sq': d2, 'man': manhattan, 'che': chebyshev}


def metric_obj(name):
    from pyclustering.utils.metric import distance_metric, type_metric
    return distance_metric({'sq': type_metric.EUCLIDEAN_SQUARE, 'man': type_metric.MANHATTAN, 'che': type_metric.CHEBYSHEV, 'euc': type_metric.EUCLIDEAN}[name])


def dist(name, a, b):
    if name == 'euc':
        v = d2(a, b)
        return core.sym_sqrt(v) if isinstance(v, SymReal) else Fraction(float(v) ** 0.5)
    return DIST[name](a, b)


def mean_of(points, idx):
    dim = len(points[0])
    out = []
    for d in range(dim):
        s = Fraction(0)
        for i in idx:
            s = s + R(points[int(i)][d])
        out.append(s * Fraction(1, len(idx)) if isinstance(s, SymReal) else s / len(idx))
    return out


def same_point(a, b, tol=TOL):
    return all_([len(a) == len(b)] + [near(x, y, tol) for x, y in zip(a, b)])


def copy_points(p):
    return [list(x) for x in p]


def mixed(ctx, spec, lo=-100, hi=100, integer=False):
    """points from a specification in which None stands for a symbolic coordinate"""
    out = []
    for i, p in enumerate(spec):
        out.append([(ctx.int if integer else ctx.real)('x%d_%d' % (i, d), lo, hi) if v is None else float(v) for d, v in enumerate(p)])
    return out


def ext(name, *tables):
    """call an entry point of engine/extra.cpp: tables (lists of rows of numbers) in, table out"""
    import ctypes
    from pyclustering.core.wrapper import ccore_library
    from pyclustering.core.pyclustering_package import package_builder, package_extractor, pyclustering_package
    lib = ccore_library.get()
    if not hasattr(lib, name):
        raise core.Unsupported('the core has no entry point ' + name)
    f = getattr(lib, name)
    f.restype = ctypes.POINTER(pyclustering_package)
    pk = [package_builder([list(r) for r in t], ctypes.c_double).create() for t in tables]
    p = f(*pk)
    r = package_extractor(p).extract()
    lib.free_pyclustering_package(p)
    return [list(x) for x in r]
