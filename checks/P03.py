from common import *
FUNCTIONS = ['pyclustering.cluster.kmedoids.kmedoids (process, __update_clusters, __swap_medoids, __calculate_swap_cost, __erase_empty_clusters)', 'ccore kmedoids::process/update_clusters/find_appropriate_cluster/swap_medoids/calculate_swap_cost/erase_empty_clusters',
             'pyclustering.cluster.kmedoids.build', 'pam_build::initialize/calculate_first_medoid/calculate_next_medoids', 'kmedoids_interface.cpp, pam_build_interface.cpp, center_initializer / kmedoids python wrappers']
BOUNDS = dict(quick='symbolic symmetric distance matrices (entries in [0,100]) over 3..4 objects and 1-D symbolic points (3..4), 1..3 medoids, up to 3 swap iterations, every initial medoid set',
              thorough='up to 5 objects')
REACH = ['swap', 'stable']


def setup():
    import pyclustering.cluster.kmedoids
    import pyclustering.cluster.center_initializer


def deviation(D, med, n):
    """the total deviation of a medoid set, as a symbolic value (minimum per object, decided by forking)"""
    s = Fraction(0)
    for i in range(n):
        b = R(D(i, med[0]))
        for m in med[1:]:
            v = R(D(i, m))
            if v < b:
                b = v
        s = s + b
    return s


def h_kmedoids(ctx, n, k, kind, itermax, metric='sq', dim=1, zero=False, spec=None):
    import itertools
    from pyclustering.cluster.kmedoids import kmedoids
    init = list(ctx.pick('init', [list(p) for p in itertools.combinations(range(n), k)]))
    if kind == 'distance_matrix':
        data = ctx.dist_matrix('d', n, Fraction(1, 16))
        D = lambda i, j: data[i][j]
    else:
        data = mixed(ctx, ctx.pick('spec', spec)) if spec else ctx.points('p', n, dim)
        if zero:
            data[0] = [0.0] * dim      # without loss of generality
        D = lambda i, j: dist(metric, data[i], data[j])
    inst = kmedoids(copy_points(data), list(init), 0.0, ccore=ctx.cc, metric=metric_obj(metric), data_type=kind, itermax=itermax)
    inst.process()
    clusters, med, dev, it, labels = [ints(c) for c in inst.get_clusters()], ints(inst.get_medoids()), inst.get_total_deviation(), inst.get_iterations(), inst.get_labels()
    ctx.obs('clusters', clusters)
    ctx.obs('medoids', med)
    ctx.obs('dev', dev)
    ctx.check(partition(clusters, n), 'clusters are not a partition of the data into non-empty clusters')
    ctx.check(len(clusters) == len(med) <= k and all(0 <= m < n for m in med) and len(set(med)) == len(med), 'medoids are not distinct objects, one per cluster')
    ctx.check(int(it) <= itermax, 'more iterations than allowed')
    lab = labels_of(clusters, n)
    if None in lab or len(clusters) != len(med):
        return
    if len(clusters) == k:
        ctx.check(ints(labels) == lab, 'labels disagree with clusters')
    ctx.check(all_([le(R(D(i, med[lab[i]])), R(D(i, m))) for i in range(n) for m in med]), 'an object is not in the cluster of a nearest medoid')
    s = Fraction(0)
    for i in range(n):
        s = s + R(D(i, med[lab[i]]))
    ctx.check(near(dev, s), 'total deviation is not the sum of distances to the own medoid')
    ctx.check(le(R(dev), deviation(D, init, n) + TOL), 'the result is worse than the initial medoids')
    if med != init:
        ctx.reach('swap')
    else:
        ctx.reach('stable')
    if int(it) < itermax and len(med) == k:
        # terminated on its own: no single swap improves the total deviation
        fs = []
        for c in range(k):
            for h in range(n):
                if h not in med:
                    m2 = list(med)
                    m2[c] = h
                    # deviation of m2, as a formula: some assignment to m2 would be cheaper than dev
                    for asg in itertools.product(m2, repeat=n):
                        s2 = Fraction(0)
                        for i in range(n):
                            s2 = s2 + R(D(i, asg[i]))
                        fs.append(ge(s2, R(dev) - TOL))
        ctx.check(all_(fs), 'terminated although a swap improves the total deviation')


def user_metric():
    from pyclustering.utils.metric import distance_metric, type_metric
    return distance_metric(type_metric.USER_DEFINED, func=lambda a, b: sum(abs(x - y) for x, y in zip(a, b)))


def h_build(ctx, n, k, kind, metric='sq', dim=1, spec=None):
    """every step of BUILD chooses an object that minimises the total deviation"""
    import itertools
    from pyclustering.cluster.kmedoids import build
    if spec is not None:
        data = mixed(ctx, spec)
        D = lambda i, j: dist(metric, data[i], data[j])
    elif kind == 'distance_matrix':
        data = ctx.dist_matrix('d', n, Fraction(1, 16))
        D = lambda i, j: data[i][j]
    else:
        data = ctx.points('p', n, dim)
        D = lambda i, j: dist('man' if metric == 'user' else metric, data[i], data[j])
    med = ints(build(copy_points(data), k, ctx.cc, data_type=kind, metric=user_metric() if metric == 'user' else metric_obj(metric)).initialize())
    ctx.obs('medoids', med)
    ctx.check(len(med) == k and len(set(med)) == k and all(0 <= m < n for m in med), 'BUILD does not return k distinct objects')
    for step in range(1, k + 1):
        chosen, prefix = med[step - 1], med[:step - 1]
        mine = deviation(D, prefix + [chosen], n)
        fs = []
        for h in range(n):
            if h not in prefix:
                for asg in itertools.product(prefix + [h], repeat=n):
                    s2 = Fraction(0)
                    for i in range(n):
                        s2 = s2 + R(D(i, asg[i]))
                    fs.append(ge(s2, mine))
        ctx.check(all_(fs), 'BUILD step %d does not minimise the total deviation' % step)


SPECS = [[[0], [1], [2], [3], [None]], [[0], [2], [None], [5], [9]]]
SPECS2 = [[[None], [1], [4], [4], [7], [8]], [[0, 0], [2, 1], [None, 1], [5, 4], [4, 4]], [[0], [3], [3], [None], [8]]]


def tasks(tier):
    out = []
    L = [(3, 1, 'distance_matrix', 2), (3, 2, 'distance_matrix', 2), (4, 2, 'distance_matrix', 1), (3, 2, 'points', 2), (4, 1, 'points', 2), (4, 2, 'points', 1), (3, 3, 'points', 1), (4, 3, 'distance_matrix', 2)]
    if tier != 'quick':
        L += [(4, 2, 'distance_matrix', 3), (5, 2, 'distance_matrix', 1), (4, 2, 'points', 3), (5, 2, 'points', 1)]
    for cc in (False, True):
        for n, k, kind, it in L:
            out.append(Task('h_kmedoids', cc=cc, n=n, k=k, kind=kind, itermax=it, metric='sq', **({'zero': True} if n == 4 and kind == 'points' else {})))
    # longer runs: concrete objects and one symbolic, run until no swap improves
    specs = SPECS if tier == 'quick' else SPECS + SPECS2
    for cc in (False, True):
        for sp in specs:
            for k in (2, 3) if tier != 'quick' else (2,):
                out.append(Task('h_kmedoids', cc=cc, n=len(sp), k=k, kind='points', itermax=12, metric='sq', spec=[sp]))
    for n, k, kind in [(3, 1, 'distance_matrix'), (3, 2, 'distance_matrix'), (4, 2, 'distance_matrix'), (3, 3, 'points'), (4, 3, 'distance_matrix')]:
        for cc in (False, True):
            out.append(Task('h_build', cc=cc, n=n, k=k, kind=kind))
    for cc in (False, True):
        for metric in ('sq', 'man', 'che', 'user'):
            out.append(Task('h_build', cc=cc, n=3, k=2, kind='points', metric=metric, dim=1 if metric in ('sq', 'user') else 2))
        for k, sp in ((3, [[0], [2], [None], [5], [9]]), (3, [[0, 0], [None, 1], [4, 4], [5, 3]]), (4, [[0], [0], [None], [5], [6]])) + (() if tier == 'quick' else ((3, [[0], [2], [None], [None], [9]]),)):
            out.append(Task('h_build', cc=cc, n=len(sp), k=k, kind='points', spec=sp))
    return out
