from common import *
FUNCTIONS = ['pyclustering.cluster.center_initializer.kmeans_plusplus_initializer (initialize, __get_next_center, __calculate_shortest_distances, __calculate_probabilities, __get_probable_center)', 'random_center_initializer', 'ccore kmeans_plus_plus (initialize, get_next_center, get_shortest_distance, calculate_probabilities, get_probable_center)', 'ccore random_center_initializer']
BOUNDS = dict(quick='2..5 points in one or two dimensions (duplicates included), up to 3 symbolic coordinates in [-100,100], or a 3 x 3 distance matrix with symbolic entries; up to all points as centers; 1..2 candidates or the farthest point; every random number symbolic in [0,1), every random index explored', thorough='5 points, 3 candidates')
REACH = ['kpp', 'farthest', 'duplicates', 'random', 'matrix', 'subset', 'indexes']


def setup():
    import pyclustering.cluster.center_initializer


def chosen_ok(ctx, D, idx, cand, draws, n, msg):
    """idx: chosen indexes in order; D(i, j) the distance; draws: the random numbers, cand per center"""
    ctx.check(len(set(idx)) == len(idx) and all(0 <= i < n for i in idx), 'a point is chosen as a center twice (%s)' % msg)
    if len(set(idx)) != len(idx):
        return
    for t in range(1, len(idx)):
        near_ = [min_of([D(i, c) for c in idx[:t]]) for i in range(n)]
        tot = sum(near_, Fraction(0))
        new = idx[t]
        if cand == 'farthest':
            ctx.check(all_([le(near_[i], near_[new] + TOL) for i in range(n)]), 'the next center is not the farthest point (%s)' % msg)
            continue
        if bool(tot <= TOL):
            continue
        r = draws[(t - 1) * cand:t * cand]
        if len(r) < cand:
            ctx.check(False, 'less random numbers than candidates (%s)' % msg)
            return
        # candidate of a random number: the point whose interval of the cumulative distances contains it
        alts = []
        cum, iv = Fraction(0), []
        for i in range(n):
            iv.append((cum, cum + near_[i]))
            cum = cum + near_[i]
        slack = TOL * (1 + n)
        inside = lambda x, i: all_([ge(x * tot, iv[i][0] - slack), lt(x * tot, iv[i][1] + slack), gt(near_[i], -slack)])
        ctx.check(any_([inside(x, new) for x in r]), 'the next center is none of the candidates drawn in proportion to the distances (%s)' % msg)
        for x in r:
            fs = [implies(all_([ge(x * tot, iv[i][0] + slack), lt(x * tot, iv[i][1] - slack)]), le(near_[i], near_[new] + TOL)) for i in range(n)]
            ctx.check(all_(fs), 'the next center is not the farthest of the drawn candidates (%s)' % msg)


def min_of(xs):
    m = xs[0]
    for x in xs[1:]:
        if x < m:
            m = x
    return m


class Draws(list):
    """records the random numbers in [0,1) that the code takes"""
    def __init__(self, ctx):
        self.n = 0
        self.ctx = ctx
        self.old = ctx.rnd01

        def rnd01():
            v = self.old()
            self.append(R(v))
            return v
        ctx.rnd01 = rnd01


def find(data, c, used):
    for i, p in enumerate(data):
        if i not in used and all(bool(eq_(x, y)) for x, y in zip(p, c)):
            return i
    return None


def eq_(x, y):
    return R(x) == R(y)


def h_kpp(ctx, spec, k, cand, idx=True, metric='sq'):
    from pyclustering.cluster.center_initializer import kmeans_plusplus_initializer as kpp
    data = mixed(ctx, spec)
    n = len(data)
    draws = Draws(ctx)
    a = kpp(copy_points(data), k, cand if cand != 'farthest' else kpp.FARTHEST_CENTER_CANDIDATE, metric=metric_obj(metric))
    r = a.initialize(return_index=idx)
    ctx.check(len(r) == k, 'the amount of centers is not the requested one')
    if not idx:
        ctx.check(all_([any_([all_([eq(R(x), R(y)) for x, y in zip(p, c)]) for p in data]) for c in r]), 'a center is not a point of the data')
        return
    chosen_ok(ctx, lambda i, j: dist(metric, data[i], data[j]), ints(r), cand, draws, n, 'Python')
    ctx.obs('centers', ints(r))
    ctx.reach('farthest' if cand == 'farthest' else 'kpp')
    ctx.reach('indexes')
    if len({tuple(p) for p in spec if None not in p}) < len([p for p in spec if None not in p]):
        ctx.reach('duplicates')


def h_matrix(ctx, n, k, cand):
    from pyclustering.cluster.center_initializer import kmeans_plusplus_initializer as kpp
    D = ctx.dist_matrix('d', n)
    draws = Draws(ctx)
    a = kpp([list(r) for r in D], k, cand if cand != 'farthest' else kpp.FARTHEST_CENTER_CANDIDATE, data_type='distance_matrix')
    r = ints(a.initialize(return_index=True))
    ctx.check(len(r) == k, 'the amount of centers is not the requested one')
    chosen_ok(ctx, lambda i, j: R(D[i][j]), r, cand, draws, n, 'distance matrix')
    ctx.reach('matrix')


def h_random(ctx, spec, k):
    from pyclustering.cluster.center_initializer import random_center_initializer as rci
    data = mixed(ctx, spec)
    r = ints(rci(copy_points(data), k).initialize(return_index=True))
    ctx.check(len(r) == k and len(set(r)) == k and all(0 <= i < len(data) for i in r), 'random centers are not distinct points of the data')
    c = rci(copy_points(data), k).initialize()
    ctx.check(len(c) == k, 'the amount of random centers is not the requested one')
    used = set()
    for p in c:
        i = find(data, p, used)
        ctx.check(i is not None, 'random centers are not distinct points of the data')
        used.add(i)
    ctx.reach('random')


def h_ckpp(ctx, spec, k, cand, mode, sub=()):
    """the C++ classes: mode 0 centers (of a subset of the points), 1 indexes, 2 random centers"""
    data = mixed(ctx, spec)
    n = len(data)
    draws = Draws(ctx)
    r = ext('verif_initialize', data, [[float(mode), float(k), -1.0 if cand == 'farthest' else float(cand)], [float(i) for i in sub]])
    if mode == 1:
        ctx.check(len(r) == 1 and len(r[0]) == k, 'the amount of centers is not the requested one (C++)')
        if len(r) != 1 or len(r[0]) != k:
            return
        chosen_ok(ctx, lambda i, j: d2(data[i], data[j]), ints(r[0]), cand, draws, n, 'C++')
        ctx.obs('centers', ints(r[0]))
        ctx.reach('indexes')
        return
    ctx.check(len(r) == k, 'the amount of centers is not the requested one (C++)')
    if len(r) != k:
        return
    pts = [data[i] for i in sub] if sub else data
    if mode == 0:
        # centers are identified by their coordinates
        for i in range(len(pts)):
            for j in range(i):
                ctx.assume(any_([not_(eq(R(x), R(y))) for x, y in zip(pts[i], pts[j])]))
    used, idx = set(), []
    for p in r:
        i = find(pts, p, used)
        ctx.check(i is not None, 'the centers are not distinct points of the given ones (C++)')
        if i is None:
            return
        used.add(i)
        idx.append(i)
    if mode == 0:
        chosen_ok(ctx, lambda i, j: d2(pts[i], pts[j]), idx, cand, draws, len(pts), 'C++ points')
    if sub:
        ctx.reach('subset')


def tasks(tier):
    o = (None,)
    out = []
    big = tier != 'quick'
    S = [([o, (0.,), (4.,)], 2, 1), ([(0.,), (1.,), (6.,), (10.,)], 3, 1), ([(9.,), (1.,), (0.,), (6.,)], 2, 2), ([o, (0.,), (4.,)], 2, 2), ([(5.,), (5.,), (5.,)], 3, 1), ([(5.,), (5.,), o], 3, 1), ([o, o, (4.,)], 2, 'farthest'), ([(5.,), (5.,), (5.,), o], 4, 'farthest'), ([(0., 0.), (3., 4.), (None, 1.)], 3, 'farthest'), ([o, (1.,)], 1, 1)]
    if big:
        S += [([o, o, (4.,)], 3, 1), ([(0.,), (1.,), (6.,), (10.,), (3.,)], 3, 3), ([o, o, (1.,), (7.,)], 3, 'farthest')]
    for spec, k, cand in S:
        nm = 'n=%d dim=%d free=%d k=%d cand=%s' % (len(spec), len(spec[0]), sum(v is None for p in spec for v in p), k, cand)
        out.append(Task('h_kpp', name='kpp ' + nm, rng=True, spec=spec, k=k, cand=cand))
        out.append(Task('h_ckpp', name='kpp cc ' + nm, cc=True, rng=True, spec=spec, k=k, cand=cand, mode=1))
    out.append(Task('h_kpp', name='kpp points', rng=True, spec=[o, (0.,), (4.,)], k=2, cand=1, idx=False))
    out.append(Task('h_kpp', name='kpp manhattan', rng=True, spec=[(None, 1.), (0., 0.), (4., 5.)], k=2, cand=1, metric='man'))
    out.append(Task('h_matrix', name='matrix n=3 cand=1', rng=True, n=3, k=2, cand=1))
    out.append(Task('h_matrix', name='matrix n=3 farthest', rng=True, n=3, k=3, cand='farthest'))
    out.append(Task('h_random', name='random', rng=True, spec=[(3.,), (1.,), (1.,)], k=2))
    out.append(Task('h_random', name='random all', rng=True, spec=[o, (1.,), (1.,)], k=3))
    out.append(Task('h_ckpp', name='random cc', cc=True, rng=True, spec=[o, (1.,), (1.,), (2.,)], k=3, cand=1, mode=2))
    for spec, sub, k, cand in (([(50.,), (0.,), (1.,), (6.,), (10.,)], (1, 2, 3, 4), 3, 'farthest'), ([(50.,), o, (1.,), (6.,)], (3, 2, 1), 2, 'farthest'), ([(50.,), (60.,), (0.,), o, (6.,)], (2, 3, 4), 2, 1)):
        out.append(Task('h_ckpp', name='subset cc k=%d cand=%s n=%d' % (k, cand, len(spec)), cc=True, rng=True, spec=spec, k=k, cand=cand, mode=0, sub=sub))
    return out
