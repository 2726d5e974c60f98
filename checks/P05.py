from common import *
FUNCTIONS = ['pyclustering.cluster.optics.optics (process, __expand_cluster_order, __update_order_seed, __extract_clusters, get_ordering), ordering_analyser (calculate_connvectivity_radius, extract_cluster_amount)',
             'pyclustering.container.kdtree.kdtree_balanced (find_nearest_dist_nodes)', 'ccore optics::*, ordering_analyser::*, kdtree_searcher', 'optics_interface.cpp, optics_wrapper.py']
BOUNDS = dict(quick='symbolic distance matrices of 3..4 objects, 1-D symbolic points (3..4) and mixed sets of 6..8 points; radius symbolic or fixed, minpts 1..3, requested amount of clusters none or 1..3 (at most 6 bisection steps with symbolic data)',
              thorough='up to 5 objects')
REACH = ['radius found', 'noise', 'noncore-member', 'two-clusters', 'reach-improved', 'radius-changed', 'all-noise']


def setup():
    import pyclustering.cluster.optics


def verify(ctx, data, N, D, e, m, inst, ordering):
    clusters, noise = [ints(c) for c in inst.get_clusters()], ints(inst.get_noise())
    objs = inst.get_optics_objects()
    ctx.check(partition(clusters, N, noise), 'clusters and noise are not a partition of the data')
    ctx.check(len(objs) == N and [int(o.index_object) for o in objs] == list(range(N)), 'optics objects do not describe the data')
    if len(objs) != N or sorted(i for c in clusters for i in c) + sorted(noise) is None:
        return
    nb = [[j for j in range(N) if j != i and bool(R(D(i, j)) <= R(e))] for i in range(N)]
    core_ = [len(nb[i]) >= m for i in range(N)]
    cd = [None] * N
    for i in range(N):
        got = objs[i].core_distance
        if core_[i]:
            # m-th smallest
            ds = [R(D(i, j)) for j in nb[i]]
            srt = []
            for x in ds:
                p = len(srt)
                while p > 0 and x < srt[p - 1]:
                    p -= 1
                srt.insert(p, x)
            cd[i] = srt[m - 1]
            ctx.check(got is not None and eqn(got, cd[i]), 'core distance is not the distance to the minpts-th neighbour')
        else:
            ctx.check(got is None, 'object with too few neighbours has a core distance')
    if any(core_[i] for i in noise):
        ctx.check(False, 'a core object is noise')
    comp = list(range(N))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i in range(N):
        for j in nb[i]:
            if core_[i] and core_[j]:
                comp[find(i)] = find(j)
    comps = {}
    for i in range(N):
        if core_[i]:
            comps.setdefault(find(i), set()).add(i)
    ctx.check(sorted(sorted(c) for c in comps.values()) == sorted(sorted(i for i in c if core_[i]) for c in clusters), 'the core objects of a cluster are not one density-connected component')
    if len(comps) > 1:
        ctx.reach('two-clusters')
    if noise:
        ctx.reach('noise')
    exp_order = []
    for c in clusters:
        cur = {}
        for pos, i in enumerate(c):
            got = objs[i].reachability_distance
            if pos == 0:
                ctx.check(core_[i] and got is None, 'a cluster does not start with an unreached core object')
            else:
                if not core_[i]:
                    ctx.reach('noncore-member')
                ctx.check(i in cur and got is not None, 'a cluster member is not reachable from the members before it')
                if i not in cur or got is None:
                    return
                ctx.check(eqn(got, cur[i]), 'reachability distance is not the smallest max(core distance, distance) over the preceding core objects')
                ctx.check(all_([le(cur[i], cur[o]) for o in c[pos + 1:] if o in cur]), 'the ordering does not follow the smallest reachability distance')
                exp_order.append(got)
            if core_[i]:
                for o in c[pos + 1:]:
                    if o in nb[i]:
                        x = R(D(i, o))
                        v = x if x >= cd[i] else cd[i]
                        if o in cur and v < cur[o]:
                            ctx.reach('reach-improved')
                        if o not in cur or v < cur[o]:
                            cur[o] = v
    for i in noise:
        ctx.check(objs[i].reachability_distance is None, 'a noise object has a reachability distance')
    if ordering is not None:
        ctx.check(len(ordering) == len(exp_order) and all_([eqn(a, b) for a, b in zip(ordering, exp_order)]), 'the ordering is not the reachability distances in processing order')


def eqn(a, b):
    return near(a, b)


def h_optics(ctx, n, kind, dim=1, bg=(), eps=None, mn=(1, 2), amount=None, integer=False):
    from pyclustering.cluster.optics import optics
    m = ctx.pick('minpts', list(mn))
    e = ctx.real('eps', 0, 60) if eps is None else eps
    if kind == 'distance_matrix':
        data = ctx.dist_matrix('d', n, 0, integer=integer)
        D = lambda i, j: data[i][j]
    else:
        data = mixed(ctx, [(None,) * dim] * n + list(bg), integer=integer)
        D = lambda i, j: dist('euc', data[i], data[j])
    a = None if amount is None else ctx.pick('amount', list(amount))
    N = len(data)
    inst = optics(copy_points(data), e, m, a, ctx.cc, data_type=kind)
    inst.process()
    ctx.obs('clusters', sorted(sorted(c) for c in inst.get_clusters()))
    r = inst.get_radius()
    ctx.obs('radius', r)
    if a is None:
        ctx.check(eq(R(r), R(e)), 'the radius changed although no amount of clusters was requested')
        verify(ctx, data, N, D, e, m, inst, inst.get_ordering())
        return
    ctx.check(all_([le(R(r), R(e)), ge(R(r), 0)]), 'the radius grew')
    if bool(R(r) != R(e)):
        ctx.reach('radius-changed')
    elif not inst.get_clusters():
        ctx.reach('all-noise')
    verify(ctx, data, N, D, r, m, inst, None)



def amount_of(ordering, radius):
    """clusters of a diagram: one before the first growth to the radius, one after every growth to the radius and one for every new growth above it"""
    if all(x == ordering[0] for x in ordering[1:]) and ordering[0] > radius:
        return 0
    r, high, falling, last = 1, False, False, None
    for x in ordering:
        if x >= radius:
            if not high:
                high, falling, r = True, False, r + 1
            elif x < last:
                falling = True
            elif x > last and falling:
                falling, r = False, r + 1
            last = x
        else:
            high = False
    return r


def h_ordering(ctx, n, iterations, level=None):
    """amount of clusters of an ordering diagram and the radius for a requested amount"""
    ordering = [ctx.real('r%d' % i, 0, 4) for i in range(n)]
    radius = ctx.real('radius', 0, 4) if level is None else level
    amount = ctx.choose(3) + 1
    if ctx.cc:
        a, r = ext('verif_ordering', [ordering, [radius, amount, iterations]])[0]
        a, r = int(a), R(ctx.unbox(r))
        r = None if bool(r < 0) else r
    else:
        from pyclustering.cluster.optics import ordering_analyser
        o = ordering_analyser(list(ordering))
        a, borders = o.extract_cluster_amount(radius)
        r, _ = o.calculate_connvectivity_radius(amount, iterations)
        ctx.check(len(o) == n and list(o.cluster_ordering) == ordering, 'the diagram is not the given one')
        e = amount_of(ordering, radius)
        ctx.check(len(borders) == max(e - 1, 0) - (1 if e and ordering[0] >= radius else 0) or e == 0, 'not one border between two clusters of the diagram')
    ctx.obs('amount', a)
    ctx.check(a == amount_of(ordering, radius), 'wrong amount of clusters of the ordering diagram')
    if r is not None:
        ctx.reach('radius found')
        ctx.check(amount_of(ordering, r) == amount, 'the radius does not give the requested amount of clusters')
    else:
        # every radius the bisection could try
        lo, hi = Fraction(0), R(max(ordering))
        if amount_of(ordering, hi) > amount:
            return
        for i in range(iterations):
            m = (lo + hi) * Fraction(1, 2)
            k = amount_of(ordering, m)
            ctx.check(k != amount, 'a radius that gives the requested amount is not found')
            if k == amount or k == 0:
                break
            lo, hi = (m, hi) if k > amount else (lo, m)


def tasks(tier):
    A = (1, 2, 3)
    L = [(3, 'distance_matrix', 1, (), None, (1, 2), None), (4, 'distance_matrix', 1, (), 10.0, (2, 3), None), (3, 'points', 1, (), None, (1, 2), None), (4, 'points', 1, (), 3.0, (2,), None), (0, 'points', 2, ((None, 0.5), (0., 0.), (1., 2.), (0., 3.)), 2.0, (1, 2), None),
         (0, 'points', 2, ((None, .5), (0., 0.), (1., 0.), (0., 1.), (1., 1.), (3., 3.), (3., 4.)), 1.5, (2, 3), None), (1, 'points', 1, ((0.,), (1.,), (2.,), (3.5,), (7.,), (8.,), (10.,)), 2.0, (1, 2), None),
         (3, 'distance_matrix', 1, (), 10.0, (1,), (1, 2)), (1, 'points', 1, ((0.,), (1.,), (2.,), (8.,), (9.,), (10.,)), 20.0, (2,), (2, 3)), (3, 'points', 1, (), 30.0, (1, 2), (1, 2)), (2, 'points', 1, ((0.,), (1.,), (2.5,), (5.,)), 2.0, (2,), None)]
    if tier != 'quick':
        L += [(4, 'distance_matrix', 1, (), None, (1, 2, 3), None), (5, 'distance_matrix', 1, (), 10.0, (2, 3), None), (4, 'points', 1, (), None, (1, 2), None), (5, 'points', 1, (), 3.0, (2, 3), None), (4, 'distance_matrix', 1, (), 10.0, (1,), (1, 2, 3))]
    out = []
    for cc in (False, True):
        for n, kind, dim, bg, eps, mn, am in L:
            out.append(Task('h_optics', name='optics%s %s n=%d+%d dim=%d eps=%s%s' % ('[cc]' if cc else '', kind, n, len(bg), dim, 'sym' if eps is None else eps, '' if am is None else ' amount'), integer=am is not None, cc=cc, n=n, kind=kind, dim=dim, bg=bg, eps=eps, mn=mn, amount=am))
    for cc in (False, True):
        for n in (1, 3) if tier == 'quick' else (1, 3, 4, 5):
            out.append(Task('h_ordering', name='ordering%s n=%d' % ('[cc]' if cc else '', n), cc=cc, n=n, iterations=4, level=2.0 if n == 4 and tier == 'quick' else None))
    return out
