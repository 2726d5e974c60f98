import itertools
from common import *
FUNCTIONS = ['pyclustering.cluster.silhouette.silhouette (process, __calculate_score, __calculate_within_cluster_score, __caclulate_optimal_neighbor_cluster_score)', 'silhouette_ksearch (process, __calculate_clusters) with kmeans / kmedians / kmedoids and kmeans_plusplus_initializer', 'ccore silhouette::*, silhouette_ksearch::process', 'silhouette_interface.cpp, silhouette_wrapper.py, convert_data_type']
BOUNDS = dict(quick='silhouette: 3..4 symbolic 1-D points, 2-D mixed sets, symbolic 4x4 distance matrices, all partitions into 2..3 clusters up to relabelling with every order of the clusters; metrics Euclidean, squared Euclidean, Manhattan, user defined. K search: two data sets of 5..6 points, kmin=2, every random choice of the initializers', thorough='5 points')
REACH = ['singleton', 'negative', 'positive', 'ksearch']


def setup():
    import pyclustering.cluster.silhouette


def nan(x):
    x = R(x)
    return isinstance(x, float) and x != x


def oracle(ctx, D, clusters, n, score, msg=''):
    lab = labels_of(clusters, n)
    for i in range(n):
        own = [j for j in clusters[lab[i]] if j != i]
        s = score[i]
        if not own:
            ctx.reach('singleton')
            ok = nan(s)
            ctx.check(ok or eq(R(s), 0), 'the score of an object that is alone in its cluster is a number other than zero')
            continue
        a = sum((D(i, j) for j in own), Fraction(0)) * Fraction(1, len(own))
        bs = [sum((D(i, j) for j in c), Fraction(0)) * Fraction(1, len(c)) for k, c in enumerate(clusters) if k != lab[i]]
        b = bs[0]
        for x in bs[1:]:
            if x < b:
                b = x
        m = a if a > b else b
        if m == 0:
            continue      # undefined by the formula
        if nan(s) or not isnum(s):
            ctx.check(False, 'the score of an object is not a number')
            continue
        if b > a:
            ctx.reach('positive')
        else:
            ctx.reach('negative')
        v = R(s) * m - (b - a)
        ctx.check(all_([le(v, TOL * m), ge(v, -TOL * m)]), 'a score is not (b - a) / max(a, b) of its object')


def h_score(ctx, spec, metric, parts, kind='points'):
    from pyclustering.cluster.silhouette import silhouette
    clusters = [list(c) for c in ctx.pick('clusters', parts)]
    kw = {}
    if kind == 'matrix':
        n = spec
        D_ = ctx.dist_matrix('d', n, 1, 100)
        inst = silhouette([list(r) for r in D_], [list(c) for c in clusters], data_type='distance_matrix', ccore=ctx.cc)
        D = lambda i, j: R(D_[i][j])
    else:
        data = mixed(ctx, spec)
        n = len(data)
        if metric == 'user':
            from pyclustering.utils.metric import distance_metric, type_metric
            kw['metric'] = distance_metric(type_metric.USER_DEFINED, func=lambda a, b: 2.0 * sum((x - y) * (x - y) for x, y in zip(a, b)))
            D = lambda i, j: 2 * d2(data[i], data[j])
        else:
            if metric != 'default':
                kw['metric'] = metric_obj(metric)
            cache = {}

            def D(i, j):
                k = (min(i, j), max(i, j))
                if k not in cache:
                    cache[k] = dist('sq' if metric == 'default' else metric, data[k[0]], data[k[1]])
                return cache[k]
        if metric in ('sq', 'default', 'euc', 'man'):
            # coinciding objects everywhere make the formula undefined
            ctx.assume(any_([gt(d2(data[i], data[j]), 1) for i in range(n) for j in range(i)]))
        inst = silhouette(copy_points(data), [list(c) for c in clusters], ccore=ctx.cc, **kw)
    inst.process()
    score = list(inst.get_score())
    ctx.check(len(score) == n, 'there is not one score per object')
    if len(score) == n:
        oracle(ctx, D, clusters, n, score)


def h_ksearch(ctx, spec, kmax, algo, cc_):
    from pyclustering.cluster.silhouette import silhouette_ksearch, silhouette_ksearch_type
    data = mixed(ctx, spec)
    import pyclustering.cluster.silhouette as mod
    if not cc_ and hasattr(mod, 'kmeans_plusplus_initializer'):
        class stub:
            # any initial objects
            def __init__(self, data, amount, *a, **k):
                self.data, self.k = data, amount

            def initialize(self, return_index=False, **k):
                idx = list(ctx.pick('initial', list(itertools.combinations(range(len(self.data)), self.k))))
                return idx if return_index else [self.data[i] for i in idx]
        real, mod.kmeans_plusplus_initializer = mod.kmeans_plusplus_initializer, stub
        try:
            return ksearch(ctx, data, kmax, algo, cc_)
        finally:
            mod.kmeans_plusplus_initializer = real
    ksearch(ctx, data, kmax, algo, cc_)


def ksearch(ctx, data, kmax, algo, cc_):
    from pyclustering.cluster.silhouette import silhouette_ksearch, silhouette_ksearch_type
    inst = silhouette_ksearch(copy_points(data), 2, kmax, algorithm=silhouette_ksearch_type[algo], random_state=5, ccore=cc_)
    inst.process()
    scores, amount, score = inst.get_scores(), inst.get_amount(), inst.get_score()
    ks = sorted(int(k) for k in scores)
    ctx.check(ks == list(range(2, 2 + len(ks))) and (len(ks) >= kmax - 2), 'the scores are not given for consecutive amounts of clusters from kmin')
    vals = {int(k): scores[k] for k in scores}
    ok = [k for k in ks if not nan(vals[k])]
    for k in ok:
        ctx.check(all_([le(R(vals[k]), 1 + TOL), ge(R(vals[k]), -1 - TOL)]), 'an average score is outside [-1, 1]')
    if ok:
        ctx.reach('ksearch')
        ctx.check(int(amount) in ok, 'the reported amount of clusters has no score')
        if int(amount) in ok:
            ctx.check(near(R(score), R(vals[int(amount)])), 'the reported score is not the score of the reported amount')
            ctx.check(all_([ge(R(score), R(vals[k]) - TOL) for k in ok]), 'another amount of clusters has a higher score')


def tasks(tier):
    o = (None,)
    P3 = [((0,), (1, 2)), ((2, 0), (1,)), ((1,), (0, 2))]
    P4 = [((0, 3), (2, 1)), ((3,), (0, 1, 2)), ((1, 2), (3,), (0,)), ((2, 0), (3, 1)), ((3, 0, 2), (1,))]
    P5 = [((4, 1), (0, 2, 3)), ((2, 4), (3,), (0, 1)), ((1, 3), (0, 4), (2,))]
    out = []
    for cc in (False, True):
        L = [([o, (0.,), (4.,)], 'default', P3), ([o] * 3, 'man', P3), ([o] * 3, 'euc', P3), ([o, (0.,), (4.,), o], 'man', P4), ([o, (0.,), (4.,), (9.,)], 'sq', P4), ([(None, 1.), (0., 2.), (4., 4.), (1., 8.)], 'sq', P4[:3]), ([o, (0.,), (4.,), (5.,), (9.,)], 'euc', P5), ([(None, 0.), (0., 3.), (4., 0.), (5., 5.)], 'man', P4)]
        if not cc:
            L.append(([o, (0.,), (4.,), (7.,)], 'user', P4))
        if tier != 'quick':
            L += [([o, (0.,), (4.,), o], 'sq', P4), ([o] * 3, 'sq', P3), ([o] * 4, 'man', P4), ([(None, None), (0., None), (4., 4.), (1., 8.)], 'sq', P4)]
        for spec, m, parts in L:
            out.append(Task('h_score', name='score%s n=%d dim=%d free=%d %s' % ('[cc]' if cc else '', len(spec), len(spec[0]), sum(v is None for p in spec for v in p), m), cc=cc, spec=spec, metric=m, parts=parts))
        out.append(Task('h_score', name='score%s matrix 3' % ('[cc]' if cc else ''), cc=cc, spec=3, metric='matrix', parts=P3, kind='matrix'))
        out.append(Task('h_score', name='score%s matrix 4' % ('[cc]' if cc else ''), cc=cc, spec=4, metric='matrix', parts=P4, kind='matrix'))
        for a in ('KMEANS', 'KMEDIANS', 'KMEDOIDS'):
            for nm, spec in (('a', [(12.,), (0.,), (1.,), (10.,), (11.,)]), ('b', [(0., 0.), (1., 0.), (8., 8.), (0., 8.), (1., 9.), (9., 8.)])):
                # the Python search runs its algorithms with the C++ core by default
                out.append(Task('h_ksearch', name='ksearch%s %s %s' % ('[cc]' if cc else '', nm, a), cc=True, rng=True, spec=spec, kmax=4 if nm == 'a' or (cc and tier == 'quick') else 5, algo=a, **{'cc_': cc}))
    return out
