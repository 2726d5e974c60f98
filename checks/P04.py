from common import *
FUNCTIONS = ['pyclustering.cluster.dbscan.dbscan (process, __expand_cluster, neighbour searchers)', 'pyclustering.container.kdtree.kdtree_balanced (construction, find_nearest_dist_nodes)',
             'ccore dbscan::process/expand_cluster/get_neighbors*, kdtree_balanced, kdtree_searcher', 'dbscan_interface.cpp, dbscan_wrapper.py']
BOUNDS = dict(quick='distance matrices of 3..4 objects (symbolic entries and radius), 1-D: 3..4 symbolic points with symbolic radius, 2-D: 2..3 symbolic points, and 6..8 point sets of which 1..2 are symbolic; neighbours 0..3',
              thorough='up to 5 objects, larger mixed sets')
REACH = ['noise', 'border', 'two-clusters', 'border-choice']


def setup():
    import pyclustering.cluster.dbscan


def h_dbscan(ctx, n, kind, dim=1, bg=(), eps=None, mn=(0, 1, 2, 3)):
    from pyclustering.cluster.dbscan import dbscan
    m = ctx.pick('neighbors', list(mn))
    e = ctx.real('eps', 0, 60) if eps is None else eps
    if kind == 'distance_matrix':
        data = ctx.dist_matrix('d', n, 0)
        near_ = lambda i, j: bool(R(data[i][j]) <= R(e))
    else:
        data = ctx.points('p', n, dim) + [list(b) for b in bg]
        near_ = lambda i, j: bool(d2(data[i], data[j]) <= R(e) * R(e))
    N = len(data)
    inst = dbscan(copy_points(data), e, m, ctx.cc, data_type=kind)
    inst.process()
    clusters, noise = [ints(c) for c in inst.get_clusters()], ints(inst.get_noise())
    ctx.obs('clusters', sorted(sorted(c) for c in clusters))
    ctx.obs('noise', sorted(noise))
    ctx.check(partition(clusters, N, noise), 'clusters and noise are not a partition of the data')
    nb = [[j for j in range(N) if j != i and near_(i, j)] for i in range(N)]
    core_ = [len(nb[i]) >= m for i in range(N)]
    comp = list(range(N))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i in range(N):
        for j in nb[i]:
            if core_[i] and core_[j]:
                comp[find(i)] = find(j)
    comps = {}
    for i in range(N):
        if core_[i]:
            comps.setdefault(find(i), set()).add(i)
    ctx.check(sorted(sorted(c) for c in comps.values()) == sorted(sorted(i for i in c if core_[i]) for c in clusters), 'the core points of a cluster are not one density-connected component')
    lab = labels_of(clusters, N)
    for i in range(N):
        if core_[i]:
            continue
        cn = [j for j in nb[i] if core_[j]]
        if not cn:
            ctx.reach('noise')
            ctx.check(lab[i] is None, 'a point without core neighbours is in a cluster')
        else:
            ctx.reach('border')
            if len(set(find(j) for j in cn)) > 1:
                ctx.reach('border-choice')
            ctx.check(lab[i] is not None and any(lab[j] == lab[i] for j in cn), 'a border point is not in the cluster of one of its core neighbours')
    if len(comps) > 1:
        ctx.reach('two-clusters')


def tasks(tier):
    L = [(3, 'distance_matrix', 1, (), None), (4, 'distance_matrix', 1, (), 10.0), (3, 'points', 1, (), None), (4, 'points', 1, (), 3.0), (2, 'points', 2, (), None), (3, 'points', 2, (), 2.0),
         (1, 'points', 2, ((0., 0.), (1., 0.), (0., 1.), (1., 1.), (3., 3.), (3., 4.)), 1.5), (1, 'points', 1, ((0.,), (1.,), (2.,), (3.,), (7.,), (8.,), (9.,), (10.,)), 2.0), (2, 'points', 1, ((0.,), (1.,), (1.,), (5.,)), 1.0)]
    if tier != 'quick':
        L += [(4, 'distance_matrix', 1, (), None), (5, 'distance_matrix', 1, (), 10.0), (4, 'points', 1, (), None), (5, 'points', 1, (), 3.0), (4, 'points', 2, (), 2.0),
              (2, 'points', 2, ((0., 0.), (1., 0.), (0., 1.), (1., 1.), (3., 3.), (3., 4.)), 1.5), (2, 'points', 1, ((0.,), (1.,), (2.,), (3.,), (7.,), (8.,), (9.,), (10.,)), 2.0)]
    out = []
    for cc in (False, True):
        for n, kind, dim, bg, eps in L:
            out.append(Task('h_dbscan', name='dbscan%s %s n=%d+%d dim=%d eps=%s' % ('[cc]' if cc else '', kind, n, len(bg), dim, 'sym' if eps is None else eps), cc=cc, n=n, kind=kind, dim=dim, bg=bg, eps=eps, mn=(1, 2, 3) if n + len(bg) > 3 else (0, 1, 2)))
    return out
