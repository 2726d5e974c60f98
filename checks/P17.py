import itertools
from common import *
from P15 import as_list, same_feature, feature_of, diameter2
FUNCTIONS = ['pyclustering.cluster.birch.birch (process, __insert_data, __rebuild_tree, __extract_features, get_clusters, get_cf_entries, get_cf_cluster)', 'pyclustering.container.cftree.cftree', 'pyclustering.cluster.agglomerative (single link)', 'pyclustering.cluster.encoder.cluster_encoder']
BOUNDS = dict(quick='3..6 points in one or two dimensions, one symbolic coordinate (up to three for 3 points) in [-100,100], 1..3 clusters, branching factor 2..5, 1..5 entries per node, diameters 0..2, limits of 2..10 entries, centroid Euclidean and Manhattan measurements', thorough='7 points, two symbolic coordinates')
REACH = ['rebuilt', 'merged-entry', 'several-leafs', 'fewer-entries']


def setup():
    import pyclustering.cluster.birch


def bottleneck(ctx, cf, groups):
    """no two clusters are closer than the two parts of a split of a cluster (single link)"""
    fs = []
    for g in groups:
        if len(g) < 2:
            continue
        for r in range(1, len(g) // 2 + 1):
            for part in itertools.combinations(g, r):
                if 2 * r == len(g) and g[0] not in part:
                    continue
                rest = [i for i in g if i not in part]
                for a, b in itertools.combinations(groups, 2):
                    for i in a:
                        for j in b:
                            fs.append(any_([le(d2(cf[x], cf[y]), d2(cf[i], cf[j]) + TOL) for x in part for y in rest]))
    return all_(fs)


def h_birch(ctx, spec, k, bf, me, dia, mt, limit=500, mult=1.5):
    from pyclustering.cluster.birch import birch
    from pyclustering.container.cftree import measurement_type
    points = mixed(ctx, spec)
    n = len(points)
    b = birch(copy_points(points), k, branching_factor=bf, max_node_entries=me, diameter=dia, type_measurement=measurement_type(mt), entry_size_limit=limit, diameter_multiplier=mult)
    b.process()
    clusters = [ints(c) for c in b.get_clusters()]
    entries, groups = b.get_cf_entries(), [ints(g) for g in b.get_cf_cluster()]
    ctx.obs('clusters', clusters)
    ctx.obs('entries', [int(e.number_points) for e in entries])
    ctx.check(partition(clusters, n, allow_empty=True), 'not every point is in exactly one cluster')
    cnt = sum(int(e.number_points) for e in entries)
    ls = [sum((R(as_list(e.linear_sum)[d]) for e in entries), Fraction(0)) for d in range(len(points[0]))]
    ss = sum((R(e.square_sum) for e in entries), Fraction(0))
    fn, fl, fs = feature_of(points)
    ctx.check(all_([cnt == fn, near(ss, fs, TOL * 1000)] + [near(a, c) for a, c in zip(ls, fl)]), 'the CF entries do not summarise exactly the data')
    ctx.check(len(entries) <= limit, 'more CF entries than the limit')
    ctx.check(partition(groups, len(entries)), 'the clusters of CF entries are not a partition of the entries')
    ctx.check(len(groups) == len(clusters) == min(k, len(entries)), 'the amount of clusters is not the requested one')
    if not partition(groups, len(entries)):
        return
    if len(entries) < k:
        ctx.reach('fewer-entries')
    if len(entries) > me:
        ctx.reach('several-leafs')
    big = [e for e in entries if int(e.number_points) > 1]
    if big:
        ctx.reach('merged-entry')
    # the diameter of the entries is limited by the one given, or by one of the increased ones when there were too many entries
    thr = [Fraction(dia)]
    if limit < n:
        d = dia
        for _ in range(14):
            d = d * mult or 1.0
            thr.append(Fraction(d))
    okk = []
    for t in thr:
        okk.append(all_([le(diameter2(e)[0], t * t * diameter2(e)[1] + TOL) for e in big]))
    ctx.check(okk[0] if limit >= n else okk[-1], 'points farther than the diameter are merged to one CF entry')
    cf = [[R(x) * Fraction(1, int(e.number_points)) for x in as_list(e.linear_sum)] for e in entries]
    lab = {i: q for q, g in enumerate(groups) for i in g}
    where = labels_of(clusters, n)
    if None in where:
        return
    for i, p in enumerate(points):
        ds = [d2(p, c) for c in cf]
        ctx.check(any_([all_([le(ds[j], x + TOL) for x in ds]) for j in range(len(cf)) if lab[j] == where[i]]), 'a point is not in the cluster of the nearest CF entry')
    ctx.check(bottleneck(ctx, cf, groups), 'the CF entries are not clustered by single link')
    if limit < n:
        full = birch(copy_points(points), k, branching_factor=bf, max_node_entries=me, diameter=dia, type_measurement=measurement_type(mt), entry_size_limit=500).process()
        if len(full.get_cf_entries()) > limit:
            ctx.reach('rebuilt')
        elif len(full.get_cf_entries()) < limit:
            ctx.check([sorted(c) for c in clusters] == [sorted(ints(c)) for c in full.get_clusters()], 'the limit changes the result although it is not reached')


def tasks(tier):
    o = (None,)
    out = []
    L = [([o] * 3, 2, 2, 1, 0.5, 0, 500), ([(0.,), (1.,), (5.,), o], 2, 5, 5, 0.5, 0, 500), ([(0.,), (1.,), (5.,), (6.,), o], 3, 2, 2, 1.0, 0, 500), ([(0.,), (4.,), (9.,), (15.,), o], 2, 2, 1, 0.5, 0, 3), ([(0.,), (4.,), (9.,), o], 2, 3, 2, 0.0, 0, 2), ([o, (0.,), (4.,), (9.,)], 1, 2, 1, 1.0, 1, 2),
         ([(0., 0.), (1., 2.), (5., 5.), (None, 4.)], 2, 2, 1, 1.5, 0, 500), ([(0., 0.), (1., 2.), (5., 5.), (6., None)], 2, 2, 2, 2.0, 1, 3), ([(2.,), (2.,), (7.,), o], 3, 2, 1, 0.0, 0, 500), ([o, (0.,), (8.,), (1.,), (9.,), (20.,)], 3, 2, 1, 0.25, 0, 500)]
    if tier != 'quick':
        L += [([o, (0.,), (8.,), (1.,), (9.,), (20.,), (21.,)], 3, 2, 1, 0.25, 0, 5), ([o, (0.,), (4.,), o], 2, 2, 1, 0.5, 0, 500)]
    for spec, k, bf, me, dia, mt, limit in L:
        out.append(Task('h_birch', name='n=%d dim=%d free=%d k=%d bf=%d me=%d dia=%s mt=%d limit=%d' % (len(spec), len(spec[0]), sum(v is None for p in spec for v in p), k, bf, me, dia, mt, limit), spec=spec, k=k, bf=bf, me=me, dia=dia, mt=mt, limit=limit, cc=True))
    return out
