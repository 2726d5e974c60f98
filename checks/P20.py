from common import *
FUNCTIONS = ['pyclustering.utils.metric.distance_metric (all types, basic and numpy calculators, enable/disable_numpy_usage, gower max_range from data)', 'pyclustering.utils.metric.*_distance and *_distance_numpy', 'pyclustering.utils.calculate_distance_matrix', 'ccore metric.hpp (all metrics), metric_create, metric_calculate, metric_destroy', 'pyclustering.core.metric_wrapper']
BOUNDS = dict(quick='points of 1..3 dimensions, all coordinates symbolic in [-100,100]; Minkowski degrees 1, 2, 3 and 4; Gower ranges symbolic in [0,50] or taken from three points; up to two rows of points for the array form', thorough='4 dimensions')
REACH = ['zero-divider', 'flat-range', 'odd-degree', 'rows', 'toggle', 'user']
NAMES = ['EUCLIDEAN', 'EUCLIDEAN_SQUARE', 'MANHATTAN', 'CHEBYSHEV', 'MINKOWSKI', 'CANBERRA', 'CHI_SQUARE', 'GOWER', 'USER_DEFINED']


def setup():
    import pyclustering.utils.metric, pyclustering.core.metric_wrapper, pyclustering.utils


def div_sum(pairs):
    """sum of numerator / denominator"""
    s = Fraction(0)
    for a, b in pairs:
        s = s + (a / b)
    return s


def minkowski_sum(a, b, deg):
    """sum of (a_i - b_i)^p as documented: differences keep their sign for an odd degree"""
    s = Fraction(0)
    for x, y in zip(a, b):
        d = R(x) - R(y)
        t = d
        for _ in range(deg - 1):
            t = t * d
        s = s + t
    return s


def formula(ctx, name, v, a, b, deg=None, rng=None):
    """formula: v is the distance between a and b by the definition of the metric"""
    v = R(v)
    if isinstance(v, float):
        return False
    ab = [abs_(R(x) - R(y)) for x, y in zip(a, b)]
    if name == 'EUCLIDEAN':
        return all_([ge(v, 0), near(v * v, d2(a, b))])
    if name == 'EUCLIDEAN_SQUARE':
        return near(v, d2(a, b))
    if name == 'MANHATTAN':
        return near(v, sum(ab, Fraction(0)))
    if name in ('CHEBYSHEV', 'USER_DEFINED'):
        return all_([any_([near(v, x) for x in ab]), all_([ge(v + TOL, x) for x in ab])])
    if name == 'MINKOWSKI':
        s, p = minkowski_sum(a, b, deg), v
        for _ in range(deg - 1):
            p = p * v
        if deg % 2 and deg > 1:
            ctx.reach('odd-degree')
        return all_([ge(v, 0) if deg > 1 else True, near(p, s)])
    if name == 'GOWER':
        q = []
        for x, r in zip(ab, rng):
            if R(r) == 0:
                ctx.reach('flat-range')
            else:
                q.append((x, R(r)))
        return near(v * len(a), div_sum(q))
    q = []
    for x, y, z in zip(a, b, ab):
        m = abs_(x) + abs_(y)
        if m == 0:
            ctx.reach('zero-divider')
        else:
            q.append((z if name == 'CANBERRA' else z * z, m))
    return near(v, div_sum(q))


def h_metric(ctx, kind, dim, how, deg=2, rows=0, corners=False):
    from pyclustering.utils.metric import distance_metric, type_metric
    import numpy
    name = kind
    P = ctx.points('p', max(2, rows + 1), dim)
    a, b = P[0], P[1]
    kw, rng = {}, None
    if name == 'MINKOWSKI':
        kw['degree'] = deg
    if name == 'GOWER':
        if corners:
            data = [a, b, [Fraction(1)] * dim]
            kw['data'] = [list(map(lambda x: float(x) if isinstance(x, Fraction) else x, p)) for p in data]
            rng = []
            for d in range(dim):
                lo = hi = R(data[0][d])
                for p in data[1:]:
                    lo, hi = (R(p[d]) if R(p[d]) < lo else lo), (R(p[d]) if R(p[d]) > hi else hi)
                rng.append(hi - lo)
        else:
            rng = [ctx.real('r%d' % d, 0, 50) for d in range(dim)]
            for d in range(dim):        # a range of zero: the coordinates do not vary
                ctx.assume(any_([gt(rng[d], Fraction(1, 100))] + [all_([eq(rng[d], 0)] + [eq(p[d], q[d]) for p in P[:1] for q in P[1:]])]))
            kw['max_range'] = list(rng)
    if name == 'USER_DEFINED':
        ctx.reach('user')
        kw['func'] = lambda x, y: max([abs(x[d] - y[d]) for d in range(len(x))])
    odd = name == 'MINKOWSKI' and deg % 2 == 1
    if odd and deg > 1:       # the root of a negative number is not defined
        for p, q in ([(x, a) for x in P[1:]] if rows else [(a, b)]):
            ctx.assume(ge(minkowski_sum(p, q, deg), 0))
    metric = distance_metric(getattr(type_metric, name), **kw)
    if how == 'core':
        from pyclustering.core.metric_wrapper import metric_wrapper
        metric = metric_wrapper.create_instance(metric)
        junk = [bytearray(64) for _ in range(64)]
        call = lambda x, y: ctx.unbox(metric(list(x), list(y)))
    elif how == 'numpy':
        metric.enable_numpy_usage()
        call = lambda x, y: metric(numpy.array(x), numpy.array(y))
    elif how == 'toggle':
        ctx.reach('toggle')
        metric.enable_numpy_usage()
        metric.disable_numpy_usage()
        call = lambda x, y: metric(list(x), list(y))
    else:
        call = lambda x, y: metric(list(x), list(y))
    if rows:
        ctx.reach('rows')
        v = metric(numpy.array([list(p) for p in P[1:]]), numpy.array(list(a)))
        v = [x for x in v]
        ctx.obs('d', v)
        ctx.check(len(v) == rows, 'not one distance per row')
        for x, p in zip(v, P[1:]):
            ctx.check(formula(ctx, name, x, p, a, deg, rng), 'a distance of the array form is not the one defined by the metric')
        return
    v, w, z = call(a, b), call(b, a) if not odd else None, call(a, a)
    ctx.obs('d', [v, w, z])
    ctx.check(formula(ctx, name, v, a, b, deg, rng), 'the distance is not the one defined by the metric')
    if not odd:
        ctx.check(formula(ctx, name, w, a, b, deg, rng), 'the distance is not symmetric')
    ctx.check(isnum(z) and near(z, 0), 'the distance from a point to itself is not zero')


def h_matrix(ctx, n, dim, kind):
    from pyclustering.utils import calculate_distance_matrix
    from pyclustering.utils.metric import distance_metric, type_metric
    name = kind
    P = ctx.points('p', n, dim)
    if name is None:
        m, name = calculate_distance_matrix(copy_points(P)), 'EUCLIDEAN'
    else:
        m = calculate_distance_matrix(copy_points(P), distance_metric(getattr(type_metric, name)))
    ok = len(m) == n and all(len(r) == n for r in m)
    ctx.check(ok, 'the matrix has a wrong shape')
    if ok:
        ctx.check(all_([formula(ctx, name, m[i][j], P[i], P[j]) for i in range(n) for j in range(n)]), 'an element of the distance matrix is not the distance between the points')


def tasks(tier):
    out = []
    big = tier != 'quick'
    for name in NAMES:
        for how in ('basic', 'numpy', 'core', 'toggle'):
            if how == 'toggle' and name == 'USER_DEFINED':
                continue
            for dim in ((1, 2, 3) if not big else (1, 2, 3, 4)):
                if how == 'toggle' and dim != 2:
                    continue
                for deg in ((1, 2, 3, 4) if name == 'MINKOWSKI' else (2,)):
                    if not big and (dim == 2 and (deg == 4 or deg == 3 and how in ('numpy', 'toggle')) or dim == 1 and deg == 4 and how != 'core'):
                        continue
                    if dim > 2 and (deg > 2 or how == 'numpy' or how == 'core' and name in ('CANBERRA', 'CHI_SQUARE') and not big):
                        continue
                    out.append(Task('h_metric', name='%s %s dim=%d%s' % (name.lower(), how, dim, ' p=%d' % deg if name == 'MINKOWSKI' else ''), how=how, dim=dim, deg=deg, cc=how == 'core', kind=name))
    for name in NAMES[:-1]:
        for dim in (1, 2):
            out.append(Task('h_metric', name='%s rows dim=%d' % (name.lower(), dim), how='numpy', dim=dim, rows=2, deg=3 if name == 'MINKOWSKI' and dim == 1 else 2, kind=name))
    for how in ('basic', 'numpy', 'core'):
        out.append(Task('h_metric', name='gower %s range of data' % how, how=how, dim=2, kind='GOWER', corners=True, cc=how == 'core'))
    for name in (None, 'EUCLIDEAN_SQUARE', 'CHEBYSHEV'):
        out.append(Task('h_matrix', name='matrix %s' % name, n=3, dim=2 if name != 'CHEBYSHEV' else 1, kind=name))
    return out
