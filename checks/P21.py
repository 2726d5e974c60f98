from common import *
FUNCTIONS = ['kmeans.predict, kmedians.predict, kmedoids.predict, xmeans.predict, gmeans.predict, somsc.predict', 'pyclustering.utils.metric.distance_metric (numpy and basic calculators)']
BOUNDS = dict(quick='models trained on 3..4 points with fixed or symbolic coordinates by the Python and the C++ implementation; 1..2 predicted points of 1..2 dimensions, all coordinates symbolic in [-100,100]; Euclidean, squared Euclidean, Manhattan, Chebyshev and user-defined metrics', thorough='three predicted points')
REACH = ['tie', 'user', 'before', 'several']
KINDS = ['kmeans', 'kmedians', 'kmedoids', 'xmeans', 'gmeans']


def setup():
    import pyclustering.cluster.kmeans, pyclustering.cluster.kmedians, pyclustering.cluster.kmedoids, pyclustering.cluster.xmeans, pyclustering.cluster.gmeans, pyclustering.cluster.somsc


def model(kind, data, init, metric, cc):
    if kind == 'kmeans':
        from pyclustering.cluster.kmeans import kmeans
        return kmeans(data, init, ccore=cc, metric=metric)
    if kind == 'kmedians':
        from pyclustering.cluster.kmedians import kmedians
        return kmedians(data, init, ccore=cc, metric=metric)
    if kind == 'kmedoids':
        from pyclustering.cluster.kmedoids import kmedoids
        return kmedoids(data, [0, len(data) - 1], ccore=cc, metric=metric)
    if kind == 'xmeans':
        from pyclustering.cluster.xmeans import xmeans
        return xmeans(data, init, len(init), ccore=cc, metric=metric)
    from pyclustering.cluster.gmeans import gmeans
    return gmeans(data, 2, ccore=cc, repeat=1, k_max=2, random_state=3)


def h_predict(ctx, kind, spec, init, metric, n, as_numpy=False):
    from pyclustering.utils.metric import distance_metric, type_metric
    import numpy
    data = mixed(ctx, spec)
    if metric == 'user':
        ctx.reach('user')
        m = distance_metric(type_metric.USER_DEFINED, func=lambda a, b: sum([abs(x - y) for x, y in zip(a, b)]))
    else:
        m = metric_obj(metric)
    if kind == 'gmeans':
        ctx.rnd01 = lambda: 0.6
    a = model(kind, copy_points(data), [list(c) for c in init], m, ctx.cc)
    pts = ctx.points('q', n, len(spec[0]))
    ctx.check(list(a.predict(copy_points(pts))) == [], 'there is a prediction before the processing')
    ctx.reach('before')
    a.process()
    if kind == 'kmedoids':
        reps = [data[i] for i in a.get_medoids()]
    elif kind == 'kmedians':
        reps = a.get_medians()
    else:
        reps = a.get_centers()
    q = copy_points(pts)
    r = a.predict(numpy.array(q) if as_numpy else q)
    r = [int(i) for i in r]
    ctx.obs('predicted', r)
    ok = len(r) == n and all(0 <= i < len(reps) for i in r)
    ctx.check(ok, 'not one index of a cluster per predicted point')
    if not ok:
        return
    if len(reps) > 1:
        ctx.reach('several')
    name = {'user': 'man'}.get(metric, metric)
    if name == 'euc' or kind == 'gmeans':
        name = 'sq'
    for i, p in zip(r, pts):
        ds = [dist(name, p, c) for c in reps]
        ctx.check(all_([le(ds[i], x + TOL) for x in ds]), 'a point is predicted to be in a cluster whose representative is not the closest')
        if any(ds[i] == x for j, x in enumerate(ds) if j != i):
            ctx.reach('tie')
    again = [int(i) for i in a.predict(copy_points(pts))]
    ctx.check(again == r, 'a second prediction of the same points differs')
    clusters = [ints(c) for c in a.get_clusters()]
    ctx.check(partition(clusters, len(data)), 'the prediction changes the clusters')


def h_som(ctx, dim, k, n):
    from pyclustering.cluster.somsc import somsc
    data = [[float(x), float(3 * x % 7)][:dim] for x in (0, 1, 10, 11)]
    a = somsc(data, k, 2, ccore=ctx.cc)
    a.process()
    net = a._somsc__network
    w = [[R(x) for x in v] for v in net.weights]
    pts = ctx.points('q', n, dim)
    r = [int(i) for i in a.predict(copy_points(pts))]
    ctx.obs('predicted', r)
    ok = len(r) == n and all(0 <= i < k for i in r)
    ctx.check(ok, 'not one index of a cluster per predicted point')
    if ok:
        for i, p in zip(r, pts):
            ds = [d2(p, c) for c in w]
            ctx.check(all_([le(ds[i], x + TOL) for x in ds]), 'a point is predicted to be in a cluster whose neuron is not the closest')


def tasks(tier):
    out = []
    D1, D2 = [(0.,), (1.,), (8.,), (10.,)], [(0., 0.), (1., 2.), (9., 8.), (10., 9.)]
    I1, I2 = [[0.], [9.]], [[0., 0.], [9., 9.]]
    S1 = [(0.,), (None,), (8.,)]
    n2 = 3 if tier != 'quick' else 2
    for kind in KINDS:
        for cc in (False, True):
            for metric in (('sq', 'euc', 'man', 'che', 'user') if kind != 'gmeans' else ('sq',)):
                kw = dict(cc=cc, rng=kind in ('gmeans', 'xmeans'), kind=kind, metric=metric)
                out.append(Task('h_predict', name='%s%s %s dim=2' % (kind, ' cc' if cc else '', metric), spec=D2, init=I2, n=1, **kw))
                out.append(Task('h_predict', name='%s%s %s dim=1' % (kind, ' cc' if cc else '', metric), spec=D1, init=I1, n=n2, as_numpy=metric == 'sq', **kw))
            if kind != 'gmeans':
                out.append(Task('h_predict', name='%s%s free data' % (kind, ' cc' if cc else ''), spec=S1, init=I1, n=1, kind=kind, metric='sq', cc=cc, rng=kind == 'xmeans'))
    for cc in (False, True):
        out.append(Task('h_som', name='somsc%s' % (' cc' if cc else ''), dim=1, k=2, n=1, cc=cc, rng=True))
    return out
