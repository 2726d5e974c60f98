from common import *
FUNCTIONS = ['pyclustering.cluster.kmedians.kmedians (process, __update_clusters, __update_medians, __calculate_total_wce, predict)', 'ccore kmedians::process/update_clusters/assign_point_to_cluster/update_medians/calculate_median/erase_empty_clusters', 'kmedians_interface.cpp']
BOUNDS = dict(quick='1-D: 2..4 symbolic points, 1..3 symbolic medians; 2-D: 3 symbolic points with concrete or 1 symbolic median; 1 or 2 iterations; coordinates in [-100,100]',
              thorough='1-D: up to 5 points; 2-D: up to 4 points, 3 iterations')
REACH = ['two-steps', 'dropped']


def setup():
    import pyclustering.cluster.kmedians


def median_f(vals, m):
    """m is the median (middle value, or midpoint of the two middle values)"""
    n = len(vals)
    import itertools
    k = (n - 1) // 2
    alts = []
    pairs = [(i, i) for i in range(n)] if n % 2 else [(i, j) for i in range(n) for j in range(n) if i != j]
    for i, j in pairs:
        lo, hi = vals[i], vals[j]
        rest = [v for t, v in enumerate(vals) if t not in (i, j)]
        # `lo` has exactly k values before it in some order, the rest after `hi`
        sub = []
        for s in itertools.combinations(range(len(rest)), k):
            sub.append(all_([le(rest[t], lo) if t in s else ge(rest[t], hi) for t in range(len(rest))]))
        alts.append(all_([near(m, (lo + hi) * half if i != j else lo), le(lo, hi), any_(sub)]))
    return any_(alts)


def run(ctx, data, med, tol, metric, itermax):
    from pyclustering.cluster.kmedians import kmedians
    inst = kmedians(copy_points(data), copy_points(med), tol, ccore=ctx.cc, metric=metric_obj(metric), itermax=itermax)
    inst.process()
    return [ints(c) for c in inst.get_clusters()], inst.get_medians(), inst.get_total_wce()


def basic(ctx, data, clusters, medians, wce, metric, k):
    n, dim = len(data), len(data[0])
    ctx.check(partition(clusters, n), 'clusters are not a partition of the data into non-empty clusters')
    ctx.check(len(clusters) == len(medians) <= k, 'number of clusters and medians differ')
    fs = []
    for cl, m in zip(clusters, medians):
        for d in range(dim):
            fs.append(median_f([R(data[i][d]) for i in cl], R(m[d])))
    ctx.check(all_(fs), 'a coordinate of a center is not the median of its cluster')
    s = Fraction(0)
    for m, cl in zip(medians, clusters):
        for i in cl:
            s = s + dist(metric, data[i], m)
    ctx.check(near(wce, s), 'total WCE is not the sum of point to own median distances')


def h_step(ctx, n, k, dim, metric, itermax, conc=None):
    data = ctx.points('p', n, dim)
    med = ctx.points('m', k, dim) if conc is None else conc
    tol = 0.0
    c1, m1, w1 = run(ctx, data, med, tol, metric, 1)
    ctx.obs('clusters', c1)
    ctx.obs('medians', m1)
    basic(ctx, data, c1, m1, w1, metric, k)
    # one step: every point goes to a nearest initial median
    import itertools
    lab = labels_of(c1, n)
    if None in lab:
        return
    fs = [all_([le(dist(metric, data[i], med[perm[lab[i]]]), dist(metric, data[i], c)) for i in range(n) for c in med]) for perm in itertools.combinations(range(k), len(c1))]
    ctx.check(any_(fs), 'a point is not assigned to a nearest median')
    if len(c1) < k:
        ctx.reach('dropped')
    if itermax < 2:
        return
    c2, m2, w2 = run(ctx, data, med, tol, metric, 2)
    basic(ctx, data, c2, m2, w2, metric, k)
    if len(m1) == len(med):
        moved = False
        for a, b in zip(med, m1):
            if dist(metric, a, b) > 0:
                moved = True
                break
        if moved:
            ctx.reach('two-steps')
            ce, me, we = run(ctx, data, m1, tol, metric, 1)
        else:
            ce, me, we = c1, m1, w1
        ctx.check([sorted(c) for c in ce] == [sorted(c) for c in c2], 'two iterations differ from one iteration restarted from its medians')
        if len(me) == len(m2):
            ctx.check(all_([same_point(a, b) for a, b in zip(me, m2)]), 'two iterations give other medians than one iteration restarted from its medians')
    if metric == 'man' and len(c1) == len(c2) and len(c1) == k:
        ctx.check(le(R(w2), R(w1) + TOL), 'an iteration increases the sum of Manhattan distances')


def tasks(tier):
    out = []
    L = [(2, 1, 1, 'sq', 2, None), (3, 2, 1, 'sq', 2, None), (4, 2, 1, 'sq', 1, None), (3, 3, 1, 'sq', 1, None), (3, 2, 1, 'man', 1, None), (4, 1, 1, 'sq', 1, None), (3, 1, 2, 'sq', 1, None), (2, 1, 2, 'man', 1, None),
         (4, 1, 2, 'sq', 1, [[0.0, 0.0]]), (3, 2, 2, 'sq', 1, [[0.0, 0.0], [5.0, 5.0]]), (3, 2, 1, 'che', 1, [[0.0], [3.0]])]
    if tier != 'quick':
        L += [(5, 2, 1, 'sq', 1, None), (4, 2, 1, 'sq', 2, None), (3, 2, 2, 'sq', 2, [[0.0, 0.0], [5.0, 5.0]]), (4, 2, 2, 'sq', 1, [[0.0, 0.0], [5.0, 5.0]]), (3, 2, 2, 'man', 1, None)]
    for cc in (False, True):
        for n, k, dim, m, it, conc in L:
            out.append(Task('h_step', name='step%s n=%d k=%d dim=%d %s it=%d%s' % ('[cc]' if cc else '', n, k, dim, m, it, ' conc' if conc else ''), cc=cc, n=n, k=k, dim=dim, metric=m, itermax=it, conc=conc))
    return out
