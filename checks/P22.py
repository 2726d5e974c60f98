import math
from common import *
from P19 import log, root, wce
FUNCTIONS = ['pyclustering.cluster.gmeans.gmeans (process, _statistical_optimization, _split_and_search_optimal, _is_null_hypothesis, _project_data, _search_optimal_parameters, _perform_clustering, _run_condition)', 'ccore gmeans (process, statistical_optimization, split_and_search_optimal, is_null_hypothesis, calculate_projection, search_optimal_parameters, perform_clustering)', 'ccore stats::anderson, critical_values, cdf, std, mean; linalg', 'gmeans_interface.cpp, gmeans_wrapper.py']
BOUNDS = dict(quick='2..8 points in one or two dimensions, one symbolic coordinate in [-100,100] (duplicates included), 1..2 initial clusters, limits none and 1..3, one and two attempts; every first center of the seeding explored, its random number fixed; logarithm, square root and error function are uninterpreted monotone functions; in the symbolic runs of the Python code the outcome of every test of scipy.stats.anderson is an arbitrary decision', thorough='4 and 5 points with a symbolic coordinate')
REACH = ['one', 'limit', 'normal', 'split', 'singletons', 'statistic']
SECONDS = dict(quick=200, thorough=3000)
CRIT = [0.576, 0.656, 0.787, 0.918, 1.092]


def setup():
    import pyclustering.cluster.gmeans


def erfc(x):
    x = R(x)
    return core.sym_fun('erfc', x) if isinstance(x, SymReal) else Fraction(math.erfc(x))


def ordered(xs):
    out = []
    for x in xs:
        k = len(out)
        while k > 0 and x < out[k - 1]:
            k -= 1
        out.insert(k, x)
    return out


H = Fraction(0.70710678118654752440084436210485)


def anderson(xs):
    """A^2 of the sample for the normal distribution with the mean and the (unbiased) deviation of the sample"""
    n = len(xs)
    xs = [R(x) for x in xs]
    m = sum(xs, Fraction(0)) * Fraction(1, n)
    v = sum(((x - m) * (x - m) for x in xs), Fraction(0)) * Fraction(1, n - 1)
    s = root(v)
    w = ordered([(x - m) / s for x in xs])
    y = [erfc(-x * H) * half for x in w]
    t = Fraction(0)
    for i in range(n):
        t = t + (2 * i + 1) * (log(y[i]) + log(1 - y[n - 1 - i]))
    return -t * Fraction(1, n) - n


def critical(n, digits=None):
    d = 1.0 + 4.0 / n - 25.0 / n / n
    return [round(c / d, digits) if digits else c / d for c in CRIT]


class OpenStats:
    """scipy.stats whose statistic is an arbitrary decision: the critical values are 1..5, the statistic 4 or 6"""
    def __init__(self, ctx):
        self.ctx, self.seen = ctx, []

    def anderson(self, x, dist='norm'):
        d = self.ctx.choose(2)
        self.seen.append((len([e for e in x]), d))
        return (4., 6.)[d], [1., 2., 3., 4.5, 5.], [15., 10., 5., 2.5, 1.]

    def __getattr__(self, n):
        raise core.Unsupported('scipy.stats.' + n)


class Mod:
    def __init__(self, stats):
        self.stats = stats


def h_gmeans(ctx, spec, k, kmax, repeat=1, draw=0.6, free=False):
    """free: the outcome of every test is an arbitrary decision"""
    import pyclustering.cluster.gmeans as mod
    data = mixed(ctx, spec)
    n = len(data)
    ctx.rnd01 = lambda: draw
    real = mod.scipy if hasattr(mod, 'scipy') else None
    stats = OpenStats(ctx)
    if free:
        if real is None:
            raise core.Unsupported('the module does not use scipy')
        mod.scipy = Mod(stats)
    try:
        g = mod.gmeans(copy_points(data), k, ccore=ctx.cc, repeat=repeat, k_max=kmax, tolerance=0.0001)
        g.process()
    finally:
        if free:
            mod.scipy = real
    clusters, centers, w = [ints(c) for c in g.get_clusters()], g.get_centers(), g.get_total_wce()
    ctx.obs('clusters', clusters)
    ctx.obs('wce', w)
    ok = partition(clusters, n)
    ctx.check(ok, 'clusters are not a partition of the data into non-empty clusters')
    ctx.check(len(clusters) == len(centers), 'the amounts of clusters and of centers differ')
    if not ok or len(clusters) != len(centers):
        return
    ctx.check(kmax == -1 or len(clusters) <= kmax, 'more clusters than allowed')
    ctx.check(all_([same_point(c, mean_of(data, cl)) for c, cl in zip(centers, clusters)]), 'a center is not the mean of its cluster')
    ctx.check(near(w, wce(data, clusters)), 'total WCE is not the sum of point to own center distances')
    lab = labels_of(clusters, n)
    ctx.check(all_([le(d2(data[i], centers[lab[i]]), d2(data[i], c) + Fraction(1, 10)) for i in range(n) for c in centers]), 'a point is closer to another center')
    if len(clusters) == 1:
        ctx.reach('one')
    if len(clusters) == n:
        ctx.reach('singletons')
    if kmax != -1 and len(clusters) == kmax:
        ctx.reach('limit')
        return
    if len(clusters) > k:
        ctx.reach('split')
    if free:
        if not stats.seen:
            return
        ctx.check(k > 1 or stats.seen[0][1] == 1 or len(clusters) == 1, 'a cluster is divided although the test accepts it')
        ctx.check(stats.seen[0][1] == 0 or len(clusters) > k, 'a cluster is not divided although the test rejects it')
        return
    if len(data[0]) > 1:
        return
    # the direction does not matter in one dimension
    for c in clusters:
        xs = [data[i][0] for i in c]
        if len(c) == 1:
            continue
        ctx.check(not (len(c) < 4) or all_([near(x, xs[0]) for x in xs]), 'a small cluster of different points is kept')
        if len(c) < 4:
            continue
        v = sum(((R(x) - R(xs[0])) * (R(x) - R(xs[0])) for x in xs), Fraction(0))
        if not bool(v > Fraction(1, 100)):
            continue
        ctx.reach('normal')
        ctx.check(lt(anderson(xs), Fraction(critical(len(c))[-1] + 0.001)), 'a cluster is kept although its points are not normally distributed')
    if k == 1 and n >= 4 and len(clusters) > 1:
        ctx.check(gt(anderson([p[0] for p in data]), Fraction(critical(n)[-1] - 0.001)), 'a cluster is divided although its points are normally distributed')


def h_stat(ctx, spec):
    xs = [p[0] for p in mixed(ctx, spec)]
    ctx.assume(all_([ne(x, y) for i, x in enumerate(xs) for y in xs[:i]]))
    r = ext('verif_anderson', [list(xs)])
    ctx.check(len(r) == 1 and len(r[0]) == 6, 'no statistic is calculated')
    if len(r) != 1 or len(r[0]) != 6:
        return
    ctx.reach('statistic')
    ctx.obs('A', r[0])
    ctx.check(near(r[0][0], anderson(xs), Fraction(1, 1000)), 'the Anderson-Darling statistic is not the one of the formula')
    ctx.check(all_([near(a, Fraction(b), Fraction(1, 1000)) for a, b in zip(r[0][1:], critical(len(xs)))]), 'critical values of the test differ from the documented ones')


def h_test(ctx, spec, stat):
    """the Python test rejects exactly when the statistic reaches the strictest critical value; the sample is the projection on the direction of the centers"""
    import pyclustering.cluster.gmeans as mod
    data = mixed(ctx, spec)
    seen = []

    class S:
        def anderson(self, x, dist='norm'):
            seen.append([e for e in x])
            return stat, [1., 2., 3., 4., 5.], [15., 10., 5., 2.5, 1.]

        def __getattr__(self, n):
            raise core.Unsupported('scipy.stats.' + n)

    class F:
        stats = S()
    ctx.rnd01 = lambda: 0.6
    if not hasattr(mod, 'scipy'):
        raise core.Unsupported('the module does not use scipy')
    real, mod.scipy = mod.scipy, F()
    try:
        g = mod.gmeans(copy_points(data), 1, ccore=False, repeat=1, k_max=2).process()
    finally:
        mod.scipy = real
    clusters = [ints(c) for c in g.get_clusters()]
    ctx.obs('clusters', clusters)
    if not seen:
        return
    ctx.check((len(clusters) == 1) == (stat < 5.), 'a cluster is not divided exactly when the statistic reaches the strictest critical value')
    s = [R(x) for x in seen[0]]
    ok = len(s) == len(data)
    ctx.check(ok, 'the sample of the test has another size than the cluster')
    if ok and len(clusters) == 2:
        # points on a line through the sample: the projection on the difference of two centers, up to scale
        a, b = [mean_of(data, c) for c in clusters]
        v = [x - y for x, y in zip(a, b)]
        t = [sum((R(x) * y for x, y in zip(p, v)), Fraction(0)) for p in data]
        nv = sum((y * y for y in v), Fraction(0))
        same = lambda u: all_([near(x * nv, y * u, Fraction(1, 1000)) for x, y in zip(s, t)])
        ctx.check(any_([same(1), same(-1), all_([near(x, y, Fraction(1, 1000)) for x, y in zip(s, t)])]) if len(data) == 3 else True, 'the sample of the test is not the projection on the direction of the centers')


def tasks(tier):
    o = (None,)
    out = []
    big = tier != 'quick'
    L = [([o, (0.,), (1.,)], 1, -1), ([o, (0.,), (1.,)], 1, 2), ([o, (0.,), (1.,)], 1, 1), ([(2.,), (2.,), o], 2, -1),
         ([(None, 0.), (1., 1.), (7., 6.)], 1, 2), ([(None, 0.), (1., 1.), (7., 6.)], 2, -1)]
    if big:
        L += [([o, (0.,), (7.,), (8.,)], 2, 3), ([o, (0.,), (1.,), (2.5,)], 1, -1), ([o, (0.,), (1.,), (2.5,), (9.,)], 2, 3)]
    for spec, k, kmax in L:
        out.append(Task('h_gmeans', name='n=%d dim=%d k=%d kmax=%d v%s' % (len(spec), len(spec[0]), k, kmax, spec[-1][0]), rng=True, spec=spec, k=k, kmax=kmax, free=True))
    for spec, k, kmax in (([o, (0.,), (1.,)], 1, 1), ([(2.,), (2.,), o], 2, -1), ([(None, 0.), (1., 1.), (7., 6.)], 2, -1)):
        out.append(Task('h_gmeans', name='cc n=%d dim=%d k=%d kmax=%d v%s' % (len(spec), len(spec[0]), k, kmax, spec[-1][0]), cc=True, rng=True, softsqrt=True, spec=spec, k=k, kmax=kmax))
    # concrete samples of more points, where both decisions occur
    for spec, k in (([(0.,), (0.5,), (1.,), (1.5,), (2.,), (2.5,), (30.,)], 1), ([(0.,), (1.,), (2.,), (3.,), (50.,), (51.,), (52.,), (53.,)], 1), ([(0.,), (1.,), (2.,), (3.,), (4.,), (5.,)], 1)):
        for cc in (False, True):
            out.append(Task('h_gmeans', name='%sn=%d v%s' % ('cc ' if cc else '', len(spec), spec[-1][0]), cc=cc, rng=True, spec=spec, k=k, kmax=-1, expect=False))
    for n in (2, 3, 5):
        out.append(Task('h_stat', name='statistic n=%d' % n, cc=True, softsqrt=True, spec=[o] + [(float(3 * i * i % 7 + i),) for i in range(n - 1)]))
    for stat in (4.5, 5., 0.5):
        out.append(Task('h_test', name='test stat=%s' % stat, rng=True, spec=[(None, 0.), (1., 1.), (7., 6.)], stat=stat))
    return out
