from common import *
FUNCTIONS = ['Python implementation and C++ core (through its wrappers and interface functions) of kmeans, kmedians, kmedoids, build, fcm, dbscan, optics, agglomerative, rock, cure, clique, bsas, mbsas, ttsas, silhouette, somsc']
BOUNDS = dict(quick='3..4 points of one dimension (all coordinates symbolic) or of two dimensions (one or two symbolic coordinates); one or two iterations for iterative algorithms; concrete arguments that differ from the default ones', thorough='4..5 points')
REACH = ['compared', 'several clusters']


def setup():
    import pyclustering.cluster.kmeans, pyclustering.cluster.kmedians, pyclustering.cluster.kmedoids, pyclustering.cluster.fcm, pyclustering.cluster.dbscan, pyclustering.cluster.optics, pyclustering.cluster.rock, pyclustering.cluster.cure
    import pyclustering.cluster.clique, pyclustering.cluster.bsas, pyclustering.cluster.mbsas, pyclustering.cluster.ttsas, pyclustering.cluster.agglomerative, pyclustering.cluster.silhouette, pyclustering.cluster.somsc


def mod(name):
    import importlib
    return importlib.import_module('pyclustering.cluster.' + name)


METRICS = ('sq', 'euc', 'man', 'che', 'can', 'chi', 'mink', 'user')


def user(a, b):
    s = 0.0
    for x, y in zip(a, b):
        s = s + 2.0 * abs(x - y)
    return s


def metric_of(name):
    from pyclustering.utils.metric import distance_metric, type_metric
    if name in ('can', 'chi'):
        return distance_metric(type_metric.CANBERRA if name == 'can' else type_metric.CHI_SQUARE)
    if name == 'mink':
        return distance_metric(type_metric.MINKOWSKI, degree=2)
    if name == 'user':
        return distance_metric(type_metric.USER_DEFINED, func=user)
    return metric_obj(name)


def lists(cs): return [sorted(ints(c)) for c in cs]
def groups(cs): return sorted(sorted(ints(c)) for c in cs)


def rows(m): return [list(r) for r in m]


# every algorithm gives (decisions that have to be equal, numbers that have to be near)
def r_kmeans(d, cc, metric, itermax, first):
    x = mod('kmeans').kmeans(d, copy_points(first), 0.5, cc, metric=metric_of(metric), itermax=itermax).process()
    return lists(x.get_clusters()), [rows(x.get_centers()), [x.get_total_wce()]], lists([x.predict([[1.0] * len(d[0])])])


def r_kmedians(d, cc, metric, itermax, first):
    x = mod('kmedians').kmedians(d, copy_points(first), 0.5, cc, metric=metric_of(metric), itermax=itermax).process()
    return lists(x.get_clusters()), [rows(x.get_medians()), [x.get_total_wce()]]


def r_kmedoids(d, cc, metric, itermax, first, matrix=False):
    x = mod('kmedoids').kmedoids(d, list(first), 0.25, cc, metric=metric_of(metric), itermax=itermax, data_type='distance_matrix' if matrix else 'points').process()
    return [lists(x.get_clusters()), [int(i) for i in x.get_medoids()]], [[x.get_total_deviation()], [x.get_iterations()]]


def r_build(d, cc, metric, k, matrix=False):
    return ints(mod('kmedoids').build(d, k, cc, metric=metric_of(metric), data_type='distance_matrix' if matrix else 'points').initialize()), []


def r_fcm(d, cc, m, itermax, first):
    x = mod('fcm').fcm(d, copy_points(first), m=m, itermax=itermax, tolerance=0.0, ccore=cc).process()
    return lists(x.get_clusters()), [rows(x.get_membership()), rows(x.get_centers())]


def r_dbscan(d, cc, eps, neighbors, matrix=False):
    x = mod('dbscan').dbscan(d, eps, neighbors, cc, data_type='distance_matrix' if matrix else 'points').process()
    return [groups(x.get_clusters()), sorted(ints(x.get_noise()))], []


def r_optics(d, cc, eps, minpts, amount=None, matrix=False):
    x = mod('optics').optics(d, eps, minpts, amount, cc, data_type='distance_matrix' if matrix else 'points')
    x.process()
    o = x.get_ordering()
    return [groups(x.get_clusters()), sorted(ints(x.get_noise())), len(o)], [list(o), [x.get_radius()]]


def r_agglomerative(d, cc, k, link):
    m = mod('agglomerative')
    return groups(m.agglomerative(d, k, getattr(m.type_link, link), cc).process().get_clusters()), []


def r_rock(d, cc, eps, k, threshold):
    return groups(mod('rock').rock(d, eps, k, threshold, cc).process().get_clusters()), []


def r_cure(d, cc, k, represent, compression):
    x = mod('cure').cure(d, k, represent, compression, cc).process()
    cs = sorted(zip([sorted(ints(c)) for c in x.get_clusters()], x.get_means(), x.get_representors()), key=lambda t: t[0])
    return [t[0] for t in cs], [rows([t[1] for t in cs])]


def r_clique(d, cc, intervals, density):
    x = mod('clique').clique(d, intervals, density, ccore=cc).process()
    cells = sorted([sorted(ints(c.points)), [int(v) for v in c.logical_location]] for c in x.get_cells())
    return [groups(x.get_clusters()), sorted(ints(x.get_noise())), cells], []


def r_silhouette(d, cc, clusters, metric, matrix=False):
    s = mod('silhouette').silhouette(d, clusters, ccore=cc, metric=metric_of(metric), data_type='distance_matrix' if matrix else 'points').process().get_score()
    return [v != v for v in s], [[v for v in s if v == v]]


def r_somsc(d, cc, k, epochs):
    x = mod('somsc').somsc(d, k, epochs, cc).process()
    return lists(x.get_clusters()), []


RUNS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('r_')}


def flat(x): return [v for r in x for v in flat(r)] if isinstance(x, (list, tuple)) else [x]


def h_same(ctx, alg, spec, distinct=False, loose=False, matrix=None, lo=-8, hi=8, known=None, **a):
    """Python and the core return the same result"""
    data = mixed(ctx, spec, lo, hi)
    n = len(data)
    if matrix:
        data = ctx.dist_matrix('d', n, 10)
        a['matrix'] = True
    if distinct:            # no ties
        if matrix:
            ds = [data[i][j] for i in range(n) for j in range(i)]
        else:
            ds = [d2(data[i], data[j]) for i in range(n) for j in range(i)]
        gap = Fraction(1, 1000)
        for i in range(len(ds)):
            for j in range(i):
                ctx.assume(any_([ge(ds[i] - ds[j], gap), ge(ds[j] - ds[i], gap)]))
    rs = [RUNS[alg](rows(data), cc, **a) for cc in (False, True)]
    ctx.reach('compared')
    ctx.obs('python', rs[0][0])
    ctx.obs('core', rs[1][0])
    if len(rs[0][0]) > 1:
        ctx.reach('several clusters')
    ctx.check(rs[0][0] == rs[1][0], 'Python and the core return different clusters')
    if rs[0][0] != rs[1][0]:
        return
    p, c = flat(rs[0][1]), flat(rs[1][1])
    ctx.obs('numbers', [len(p), len(c)])
    ctx.check(len(p) == len(c), 'Python and the core return different amounts of values')
    if len(p) == len(c):
        ctx.check(all_([near(x, y) if x is not None and y is not None else x is y for x, y in zip(p, c)]), 'Python and the core return different values')


P1 = [[None], [None], [None]]
P4 = [[None], [None], [1.0], [4.5]]
G3 = [[None, 0.0], [1.0, None], [4.0, 3.0]]
G4 = [[None, 0.0], [1.0, None], [4.0, 3.0], [5.0, 1.0]]


def tasks(tier):
    q = tier == 'quick'
    out = []
    D = {1: P1, 2: G3}

    def add(alg, name='', opt=None, **k):
        out.append(Task('h_same', name='%s %s' % (alg, name), cc=True, alg=alg, **(opt or {}), **k))
    f, f2 = [[-1.0], [2.0]], [[-1.0, 0.5], [2.0, 3.0]]
    for m in METRICS:
        if m in ('sq', 'man', 'che', 'user') or not q:
            add('kmeans', m, spec=P1, metric=m, itermax=2, first=f)
            add('kmedians', m, spec=P1, metric=m, itermax=2, first=f)
        add('kmeans', m + ' 2d', spec=[[None, 0.0], [1.0, 2.0], [4.0, 3.0]], metric=m, itermax=1, first=f2)
        add('kmedoids', m, spec=[[None, 0.0], [1.0, 2.0], [4.0, 3.0]], metric=m, itermax=2, first=[0, 1], distinct=m in ('sq', 'euc'))
        add('build', m, spec=[[None, 0.0], [1.0, 2.0], [4.0, 3.0]], metric=m, k=2, distinct=m in ('euc', 'mink'))
        add('silhouette', m, spec=[[None, 0.5], [1.0, 2.0], [4.0, 3.0]], clusters=[[0, 2], [1]], metric=m)
    add('kmeans', '4', spec=P4, metric='sq', itermax=1, first=f)
    add('kmedoids', 'matrix', spec=P1, matrix=True, metric='sq', itermax=2, first=[0, 1])
    add('build', 'matrix', spec=P1, matrix=True, metric='sq', k=2)
    add('silhouette', 'matrix', spec=P1, matrix=True, clusters=[[0, 2], [1]], metric='sq')
    for nb in (1, 2):
        add('dbscan', 'neighbors=%d' % nb, spec=P4, eps=1.5, neighbors=nb)
        add('dbscan', 'matrix neighbors=%d' % nb, spec=P1, matrix=True, eps=1.5, neighbors=nb)
    add('dbscan', '2d', spec=G4, eps=1.5, neighbors=2, lo=-2, hi=6)
    for mp in (1, 2):
        add('optics', 'minpts=%d' % mp, spec=P1, eps=2.5, minpts=mp, distinct=True)
    add('optics', 'matrix', spec=P1, matrix=True, eps=4.0, minpts=1, distinct=True)
    add('optics', 'amount', spec=P1, eps=4.0, minpts=1, amount=2, distinct=True)
    for link in ('SINGLE_LINK', 'COMPLETE_LINK', 'AVERAGE_LINK', 'CENTROID_LINK'):
        for k in (1, 2):
            add('agglomerative', '%s k=%d' % (link, k), spec=P4 if link != 'AVERAGE_LINK' else P1, k=k, link=link, distinct=True)
        add('agglomerative', '%s 2d' % link, spec=G4, k=2, link=link, distinct=True, lo=-2, hi=6)
    for th in (0.25, 1.0):
        add('rock', 'threshold=%s' % th, spec=P4, eps=1.5, k=2, threshold=th)
    add('rock', '2d', spec=G4, eps=2.5, k=1, threshold=0.5, lo=-2, hi=6)
    for c in (0.0, 0.5, 1.0):
        add('cure', 'compression=%s' % c, spec=P4 if c != 0.5 else P1, k=2, represent=2, compression=c, distinct=True)
    add('cure', '2d', spec=G3, k=2, represent=1, compression=0.25, distinct=True, lo=-2, hi=6)
    for iv, de in ((2, 0), (3, 1)):
        add('clique', '%d %d' % (iv, de), spec=P1, intervals=iv, density=de)
        add('clique', '2d %d %d' % (iv, de), spec=[[None, 0.0], [1.0, 2.0], [4.0, 3.0]], intervals=iv, density=de)
    add('fcm', 'm=2', spec=[[None], [1.0], [4.0]], m=2.0, itermax=1, first=f, lo=5, hi=8, opt=dict(elim=True))
    add('fcm', 'm=3', spec=[[-4.0], [1.0], [4.0]], m=3.0, itermax=2, first=f)
    add('somsc', '', spec=[[None], [1.0], [4.0]], k=2, epochs=1, lo=5, hi=9)
    if not q:
        P5 = [[None], [None], [None], [1.0], [4.5]]
        for m in ('sq', 'man', 'che'):
            add('kmeans', m + ' 5', spec=P5, metric=m, itermax=2, first=f)
            add('kmedoids', m + ' 4', spec=[[None], [None], [1.0], [4.5]], metric=m, itermax=3, first=[0, 1], distinct=True)
            add('build', m + ' 4', spec=[[None], [None], [1.0], [4.5]], metric=m, k=3, distinct=True)
        for link in ('SINGLE_LINK', 'COMPLETE_LINK', 'AVERAGE_LINK', 'CENTROID_LINK'):
            add('agglomerative', '%s 5' % link, spec=[[None], [None], [1.0], [4.5], [7.0]], k=2, link=link, distinct=True)
        add('dbscan', '5', spec=P5, eps=1.5, neighbors=2)
        add('optics', '4', spec=P4, eps=2.5, minpts=2, distinct=True)
        add('rock', '5', spec=P5, eps=1.5, k=2, threshold=0.5)
        add('clique', '4 points', spec=[[None], [None], [None], [1.0]], intervals=3, density=1)
    return out
