import itertools, math
from common import *
FUNCTIONS = ['pyclustering.cluster.xmeans.xmeans (process, __improve_parameters, __improve_structure, __search_optimial_parameters, __splitting_criterion, __bayesian_information_criterion, __minimum_noiseless_description_length, predict)', 'ccore xmeans (process, improve_parameters, improve_structure, improve_region_structure, search_optimal_parameters, bayesian_information_criterion, minimum_noiseless_description_length)', 'ccore kmeans, kmeans_plus_plus', 'xmeans_interface.cpp']
BOUNDS = dict(quick='3..6 one-dimensional points (one symbolic coordinate in [-100,100], duplicates included) and 4 two-dimensional points, 1..2 initial centers, kmax 1..3, both splitting criteria, every first center of the seeding explored, its random number one of three values; logarithms are uninterpreted monotone functions', thorough='up to 7 points, kmax 4')
REACH = ['split', 'kept', 'limit', 'bic', 'mndl']
SECONDS = dict(quick=240, thorough=3000)


def setup():
    import pyclustering.cluster.xmeans


def log(x):
    x = R(x)
    return core.sym_fun('log', x) if isinstance(x, SymReal) else Fraction(math.log(x))


def root(x):
    x = R(x)
    return core.sym_sqrt(x) if isinstance(x, SymReal) else Fraction(math.sqrt(x))


def wce(data, parts):
    s = Fraction(0)
    for c in parts:
        m = mean_of(data, c)
        for i in c:
            s = s + d2(data[i], m)
    return s


ALPHA, BETA = 0.5, 0.75


def score(data, parts, crit, alpha=ALPHA, beta=BETA):
    """documented value of the criterion; None if it is not defined (no degree of freedom or zero variance)"""
    K, N = len(parts), sum(len(c) for c in parts)
    if N == K:
        return None
    sig = wce(data, parts) * Fraction(1, N - K)
    if crit == 0:
        if not bool(sig > TOL):
            return None
        dim = len(data[0])
        p = (K - 1) + dim * K + 1
        s = Fraction(0)
        ls = log(sig)
        for c in parts:
            n = len(c)
            s = s + Fraction(n * math.log(n) - n * math.log(N) - n / 2. * math.log(2 * math.pi) - (n - K) / 2. - p / 2. * math.log(N)) - ls * Fraction(n * dim, 2)
        return s
    al, be = Fraction(alpha), Fraction(beta)
    W = Fraction(0)
    for c in parts:
        W = W + wce(data, [c]) * Fraction(1, len(c))
    Ks = root(sig) * root(sig * al * al * Fraction(1, N) + W - sig * Fraction(N - K, 2 * N)) * al * 2 * Fraction(1 / math.sqrt(N))
    r2k = Fraction(math.sqrt(2 * K))
    return sig * r2k * (r2k + be) * Fraction(1, N) + W - sig + Ks + sig * al * al * Fraction(2, N)


def better(data, c, parts, crit):
    """formula: the criterion prefers the parts to the whole cluster"""
    a, b = score(data, [c], crit), score(data, parts, crit)
    if a is None or b is None:
        return None
    return gt(b, a - TOL) if crit == 0 else lt(b, a + TOL)


def worse(data, c, parts, crit):
    a, b = score(data, [c], crit), score(data, parts, crit)
    if a is None or b is None:
        return None
    return lt(b, a + TOL) if crit == 0 else gt(b, a - TOL)


def stable(data, parts):
    """formula: K-Means keeps the division"""
    m = [mean_of(data, p) for p in parts]
    return all_([le(d2(data[i], m[a]), d2(data[i], m[1 - a]) + TOL) for a, p in enumerate(parts) for i in p])


def twos(c):
    c = sorted(c)
    for r in range(len(c) - 1):
        for s in itertools.combinations(c[1:], r):
            a = [c[0]] + list(s)
            yield [a, [i for i in c if i not in a]]


def h_x(ctx, spec, init, kmax, crit, tol=0.0, repeat=1, draws=(0.125, 0.5, 0.875)):
    from pyclustering.cluster.xmeans import xmeans, splitting_type
    data = mixed(ctx, spec)
    n = len(data)
    v = float(ctx.pick('draw', draws))
    ctx.rnd01 = lambda: v
    x = xmeans(copy_points(data), [list(c) for c in init], kmax, tolerance=tol, criterion=splitting_type(crit), ccore=ctx.cc, repeat=repeat, alpha=ALPHA, beta=BETA)
    x.process()
    clusters, centers, w = [ints(c) for c in x.get_clusters()], x.get_centers(), x.get_total_wce()
    ctx.obs('clusters', clusters)
    ctx.obs('wce', w)
    ok = partition(clusters, n)
    ctx.check(ok, 'clusters are not a partition of the data into non-empty clusters')
    ctx.check(len(clusters) == len(centers), 'the amounts of clusters and of centers differ')
    ctx.check(len(clusters) <= max(kmax, len(init)), 'more clusters than allowed')
    if not ok or len(clusters) != len(centers):
        return
    ctx.check(all_([same_point(c, mean_of(data, cl)) for c, cl in zip(centers, clusters)]), 'a center is not the mean of its cluster')
    ctx.check(near(w, wce(data, clusters)), 'total WCE is not the sum of point to own center distances')
    lab = labels_of(clusters, n)
    if tol == 0.0:
        ctx.check(all_([le(d2(data[i], centers[lab[i]]), d2(data[i], c) + TOL) for i in range(n) for c in centers]), 'a point is closer to another center')
    ctx.reach(['bic', 'mndl'][crit])
    if len(clusters) == max(kmax, len(init)):
        ctx.reach('limit')
    if len(clusters) < kmax:
        # the search ended because no cluster had to be split
        for c in clusters:
            ps = list(twos(c))
            fs = [worse(data, c, p, crit) for p in ps] if len(c) > 2 else [None]
            if None not in fs:
                ctx.reach('kept')
                ctx.check(any_([all_([f] + ([stable(data, p)] if tol == 0.0 else [])) for f, p in zip(fs, ps)]), 'a cluster is kept although each division of it is better')
    if len(init) == 1 and kmax == 2 and len(clusters) == 2:
        f = better(data, list(range(n)), clusters, crit)
        if f is not None:
            ctx.reach('split')
            ctx.check(f, 'a cluster is divided although the criterion does not prefer it')
    if kmax == len(init):
        from pyclustering.cluster.kmeans import kmeans
        k = kmeans(copy_points(data), [list(c) for c in init], tolerance=tol, ccore=ctx.cc).process()
        if len(k.get_clusters()) == kmax:
            ctx.check([sorted(ints(c)) for c in k.get_clusters()] == [sorted(c) for c in clusters], 'the clusters differ from those of K-Means although nothing can be divided')


def tasks(tier):
    o = (None,)
    out = []
    big = tier != 'quick'
    L = [([o, (0.,), (1.,)], [[0.5]], 2, 'bm'), ([o, (0.,), (1.,)], [[0.5]], 1, 'bm'), ([(None, 0.), (1., 1.), (0., 2.), (4., 1.)], [[0., 1.]], 2, 'b'), ([(2.,), (2.,), o], [[1.]], 2, 'bm'), ([o, (0.,), (1.,), (9.,)], [[0.], [8.]], 2, 'bm'), ([o, (1.,), (7.,), (8.,)], [[0.5], [8.]], 3, 'b')]
    if big:
        L += [([o, (1.,), (7.,), (8.,)], [[0.5], [8.]], 3, 'm'), ([(None, 0.), (1., 1.), (0., 2.), (4., 1.)], [[0., 1.]], 2, 'm'), ([o, (0.,), (1.,), (1.5,)], [[0.5]], 2, 'm'), ([o, (0.,), (1.,), (1.5,)], [[0.5]], 2, 'b'), ([o, (0.,), (1.,), (7.,), (8.,)], [[0.5], [8.]], 3, 'bm'), ([o, (0.,), (1.,), (1.5,), (9.,), (10.,)], [[0.5]], 3, 'bm'), ([o, o, (1.,), (4.,)], [[0.5]], 2, 'bm')]
    for spec, init, kmax, cr in L:
        for crit in ['bm'.index(c) for c in cr]:
            for cc in (False, True):
                out.append(Task('h_x', name='%s%s n=%d dim=%d k0=%d kmax=%d v%s' % (['bic', 'mndl'][crit], ' cc' if cc else '', len(spec), len(spec[0]), len(init), kmax, spec[-1][0]), cc=cc, rng=True, softsqrt=True, spec=spec, init=init, kmax=kmax, crit=crit, **(dict(draws=(0.5,), seconds=30) if crit and len(init) == 1 and kmax == 2 and not big else {})))
    return out
