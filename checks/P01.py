from common import *
FUNCTIONS = ['pyclustering.cluster.kmeans.kmeans.process/__process_by_python/__update_clusters/__update_centers/__calculate_total_wce/__calculate_changes/predict',
             'pyclustering.utils.metric.distance_metric and its numpy kernels', 'ccore kmeans::process/update_clusters/update_centers/calculate_total_wce', 'kmeans_interface.cpp, metric_interface.cpp, kmeans_data']
BOUNDS = dict(quick='1-D: 2..4 points, 1..3 centers; 2-D: 3 points, 2 centers; coordinates in [-100,100]; at most 3 iterations; tolerance 0 and symbolic',
              thorough='1-D: up to 5 points and 3 centers; 2-D: up to 4 points; at most 5 iterations')
REACH = ['converged', 'itermax', 'empty-cluster-dropped']


def setup():
    import pyclustering.cluster.kmeans


def h_kmeans(ctx, n, k, dim, metric, itermax, tol, conc=None, observe=True):
    from pyclustering.cluster.kmeans import kmeans, kmeans_observer
    data = ctx.points('p', n, dim)
    cent = ctx.points('c', k, dim) if conc is None else conc
    t = 0.0 if tol == 0 else ctx.real('tol', 0, 50)
    obs = kmeans_observer() if observe else None
    m = metric_obj(metric)
    inst = kmeans(copy_points(data), copy_points(cent), t, ccore=ctx.cc, metric=m, itermax=itermax, observer=obs)
    inst.process()
    clusters, centers, wce = inst.get_clusters(), inst.get_centers(), inst.get_total_wce()
    ctx.obs('clusters', clusters)
    ctx.obs('centers', centers)
    ctx.obs('wce', wce)
    ctx.check(partition(clusters, n), 'clusters are not a partition of the data into non-empty clusters')
    ctx.check(len(clusters) == len(centers) and len(clusters) <= k, 'number of clusters and centers differ')
    ctx.check(all_([same_point(c, mean_of(data, cl)) for c, cl in zip(centers, clusters)]), 'a center is not the mean of its cluster')
    s = Fraction(0)
    for c, cl in zip(centers, clusters):
        for i in cl:
            s = s + dist(metric, data[i], c)
    ctx.check(near(wce, s), 'total WCE is not the sum of point to own center distances')
    if not observe:
        return
    evc = [obs.get_centers(i) for i in range(len(obs))]
    evl = [obs.get_clusters(i) for i in range(len(obs))]
    steps = len(evl) - 1
    ctx.check(1 <= steps <= itermax, 'number of iterations out of range')
    ctx.check([sorted(c) for c in evl[-1]] == [sorted(c) for c in clusters], 'the last observed clusters are not the result')
    prev = cent
    for s_ in range(1, len(evl)):
        lab = labels_of(evl[s_], n)
        cur = evc[s_]
        ok = len(cur) == len(evl[s_]) and None not in lab
        ctx.check(ok, 'observed step is not a partition')
        if not ok:
            return
        # every point is assigned to a nearest previous center, clusters of distinct centers stay distinct
        alive = []
        cs = []
        used = [None] * len(evl[s_])
        for i in range(n):
            ds = [dist(metric, data[i], c) for c in prev]
            best = 0
            for j in range(1, len(prev)):
                if ds[j] < ds[best]:
                    best = j
            cs.append(best)
        ok = True
        for i in range(n):
            for j in range(i + 1, n):
                if (lab[i] == lab[j]) != (cs[i] == cs[j]):
                    # a tie may be resolved either way
                    a, b = (i, j)
                    ok = False
        if not ok:
            # is there any assignment to nearest centers (ties broken arbitrarily) that yields these clusters?
            fs = []
            import itertools
            for perm in itertools.permutations(range(len(prev)), len(evl[s_])):
                fs.append(all_([le(dist(metric, data[i], prev[perm[lab[i]]]), dist(metric, data[i], c)) for i in range(n) for c in prev]))
            ctx.check(any_(fs), 'a point is not assigned to a nearest center')
        ctx.check(all_([same_point(c, mean_of(data, cl)) for c, cl in zip(cur, evl[s_])]), 'an observed center is not the mean of its cluster')
        if len(cur) != len(prev):
            ctx.reach('empty-cluster-dropped')
        last = s_ == len(evl) - 1
        if len(cur) == len(prev):
            ch = [dist(metric, a, b) for a, b in zip(prev, cur)]
            if last and s_ < itermax:
                ctx.reach('converged')
                ctx.check(all_([le(c, t) for c in ch]), 'stopped before the centers moved less than the tolerance')
            elif not last:
                ctx.check(any_([gt(c, t) for c in ch]), 'continued although no center moved more than the tolerance')
            else:
                ctx.reach('itermax')
        prev = cur
    if tol == 0 and steps < itermax and metric == 'sq':
        # fixed point: everything lies with its nearest center
        lab = labels_of(clusters, n)
        ctx.check(all_([le(dist(metric, data[i], centers[lab[i]]), dist(metric, data[i], c)) for i in range(n) for c in centers]), 'converged with a point closer to another center')


def tasks(tier):
    out = []
    L = [(2, 1, 1, 'sq', 3, 0, None), (3, 2, 1, 'sq', 3, 0, None), (3, 2, 1, 'sq', 2, 1, None), (3, 3, 1, 'sq', 2, 0, None), (4, 2, 1, 'sq', 2, 0, None), (3, 2, 1, 'man', 2, 0, None), (2, 2, 2, 'sq', 1, 0, None),
         (3, 2, 2, 'sq', 1, 0, None), (3, 2, 1, 'che', 2, 1, None), (2, 2, 2, 'man', 1, 0, [[0.0, 0.0], [5.0, 7.0]]), (1, 2, 2, 'che', 1, 0, [[0.0, 0.0], [5.0, 7.0]]), (3, 2, 1, 'euc', 1, 0, [[0.0], [4.0]])]
    if tier != 'quick':
        L += [(2, 2, 2, 'che', 1, 0, [[0.0, 0.0], [5.0, 7.0]]), (4, 3, 1, 'euc', 2, 0, [[0.0], [4.0], [9.0]]), (2, 2, 2, 'man', 1, 0, None), (2, 2, 2, 'che', 1, 0, None), (5, 2, 1, 'sq', 3, 0, None), (4, 3, 1, 'sq', 3, 0, None), (4, 2, 2, 'sq', 2, 0, [[0.0, 0.0], [5.0, 7.0]]), (3, 2, 3, 'sq', 1, 0, [[0.0, 0.0, 0.0], [5.0, 7.0, 1.0]])]
    for cc in (False, True):
        for n, k, dim, m, it, tol, conc in L:
            out.append(Task('h_kmeans', name='kmeans%s n=%d k=%d dim=%d %s it=%d tol=%d%s' % ('[cc]' if cc else '', n, k, dim, m, it, tol, ' conc' if conc else ''), cc=cc, n=n, k=k, dim=dim, metric=m, itermax=it, tol=tol, conc=conc))
    return out
