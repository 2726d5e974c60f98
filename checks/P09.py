import itertools
from common import *
FUNCTIONS = ['pyclustering.cluster.rock.rock (process, __create_adjacency_matrix, __find_pair_clusters, __calculate_links, __calculate_goodness)', 'ccore rock::process/create_adjacency_matrix/merge_cluster/calculate_links/calculate_goodness, adjacency_matrix', 'rock_interface.cpp, rock_wrapper.py']
BOUNDS = dict(quick='4 symbolic 1-D points, 3..4 points in 2-D, mixed sets of up to 6 points; radius fixed or symbolic; thresholds 0, 0.25, 0.5, 0.8; every number of clusters from n down to 1', thorough='5 symbolic points')
REACH = ['early-stop', 'merged-multi']


def setup():
    import pyclustering.cluster.rock


def h_rock(ctx, spec, eps, thr):
    from pyclustering.cluster.rock import rock
    data = mixed(ctx, spec)
    n = len(data)
    e = ctx.real('eps', 0, 60) if eps is None else eps
    th = ctx.pick('threshold', list(thr))
    res = {}
    for k in range(n, 0, -1):
        inst = rock(copy_points(data), e, k, th, ctx.cc)
        inst.process()
        res[k] = [ints(c) for c in inst.get_clusters()]
        ctx.obs('k%d' % k, sorted(sorted(c) for c in res[k]))
    adj = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            adj[i][j] = adj[j][i] = int(bool(d2(data[i], data[j]) < R(e) * R(e)))
    x = 1.0 + 2.0 * (1.0 - th) / (1.0 + th)

    def good(a, b):
        l = sum(adj[i][j] for i in a for j in b)
        return l / ((len(a) + len(b)) ** x - len(a) ** x - len(b) ** x)
    prev = None
    for k in range(n, 0, -1):
        cl = res[k]
        ctx.check(partition(cl, n), 'clusters are not a partition of the data')
        cur = [frozenset(c) for c in cl]
        if k == n:
            ctx.check(len(cl) == n, 'objects were merged although enough clusters are allowed')
            prev = cur
            continue
        best = max((good(a, b) for a, b in itertools.combinations(prev, 2)), default=0.0)
        if best <= 0.0:
            ctx.reach('early-stop')
            ctx.check(set(cur) == set(prev), 'clusters without links were merged')
        elif len(prev) == k + 1:
            new = [c for c in cur if c not in prev]
            gone = [c for c in prev if c not in cur]
            ok = len(new) == 1 and len(gone) == 2 and gone[0] | gone[1] == new[0]
            ctx.check(ok, 'a step does not merge exactly two clusters')
            if not ok:
                return
            if len(new[0]) > 2:
                ctx.reach('merged-multi')
            ctx.check(good(*gone) >= best - 1e-9, 'the merged clusters do not have the best goodness')
        prev = cur


def tasks(tier):
    o = (None,)
    T = (0.0, 0.25, 0.5, 0.8)
    L = [('1d3', [o] * 3, None, T), ('1d4', [o] * 4, 3.0, (0.5,)), ('2d4', [(None, 1.), (None, 0.), (2., 2.), (3., 3.)], 2.0, (0.5,)), ('mix6', [o, (0.,), (1.,), (2.,), (6.,), (7.,)], 1.5, T), ('2d3', [(None, None), (0., 0.), (1., 2.)], 2.0, (0.5,)), ('mix7', [(None, 0.), (0., 0.), (1., 0.), (0., 1.), (5., 5.), (5., 6.), (6., 5.)], 1.25, T)]
    if tier != 'quick':
        L += [('1d4', [o] * 4, None, T), ('1d5', [o] * 5, 3.0, (0.5,)), ('mix7b', [(None, 0.), (0., 0.), (1., None), (0., 1.), (5., 5.), (5., 6.), (6., 5.)], 1.25, T)]
    out = []
    for cc in (False, True):
        for nm, spec, e, t in L:
            out.append(Task('h_rock', name='rock%s %s eps=%s' % ('[cc]' if cc else '', nm, e), cc=cc, spec=spec, eps=e, thr=t))
    return out
