from common import *
FUNCTIONS = ['pyclustering.cluster.agglomerative.agglomerative (process, __merge_by_*_link, __calculate_center, __calculate_farthest_distance, __calculate_nearest_distance)', 'ccore agglomerative::process/merge_by_*_link/calculate_center', 'agglomerative_interface.cpp, agglomerative_wrapper.py']
BOUNDS = dict(quick='3..4 symbolic 1-D points, 2-D: 3 symbolic points, and mixed sets of up to 6 points; every number of clusters from n down to 1; the four linkages', thorough='5 symbolic 1-D points, 4 in 2-D')
REACH = ['merged-multi']


def setup():
    import pyclustering.cluster.agglomerative


def link_dist(link, data, a, b):
    if link == 'centroid':
        return d2(mean_of(data, a), mean_of(data, b))
    ds = [d2(data[i], data[j]) for i in a for j in b]
    if link == 'average':
        s = Fraction(0)
        for x in ds:
            s = s + x
        return s * Fraction(1, len(ds))
    r = ds[0]
    for x in ds[1:]:
        if (x < r) if link == 'single' else (x > r):
            r = x
    return r


def h_agg(ctx, spec, link):
    from pyclustering.cluster.agglomerative import agglomerative, type_link
    data = mixed(ctx, spec)
    n = len(data)
    L = {'single': type_link.SINGLE_LINK, 'complete': type_link.COMPLETE_LINK, 'average': type_link.AVERAGE_LINK, 'centroid': type_link.CENTROID_LINK, 'default': None}[link]
    real = 'centroid' if link == 'default' else link
    prev = [[i] for i in range(n)]
    for k in range(n, 0, -1):
        inst = agglomerative(copy_points(data), k, L, ctx.cc)
        inst.process()
        cl = [ints(c) for c in inst.get_clusters()]
        ctx.check(partition(cl, n), 'clusters are not a partition of the data')
        ctx.check(len(cl) == k, 'the number of clusters differs from the requested one')
        ctx.obs('k%d' % k, sorted(sorted(c) for c in cl))
        cur = [frozenset(c) for c in cl]
        if k == n:
            continue
        old = [frozenset(c) for c in prev]
        new = [c for c in cur if c not in old]
        gone = [c for c in old if c not in cur]
        ok = len(new) == 1 and len(gone) == 2 and gone[0] | gone[1] == new[0]
        ctx.check(ok, 'a step does not merge exactly two clusters')
        if not ok:
            return
        if max(len(c) for c in prev) > 1:
            ctx.reach('merged-multi')
        m = link_dist(real, data, sorted(gone[0]), sorted(gone[1]))
        fs = []
        for a in range(len(old)):
            for b in range(a + 1, len(old)):
                if {old[a], old[b]} != set(gone):
                    fs.append(le(m, link_dist(real, data, sorted(old[a]), sorted(old[b])) + TOL))
        ctx.check(all_(fs), 'the merged clusters are not a closest pair under the %s linkage' % real)
        prev = cl


def h_over(ctx, link):
    """more clusters requested than objects"""
    from pyclustering.cluster.agglomerative import agglomerative, type_link
    data = ctx.points('p', 2, 1)
    inst = agglomerative(copy_points(data), 4, list(type_link)[link], ctx.cc)
    inst.process()
    ctx.check(partition([ints(c) for c in inst.get_clusters()], 2), 'clusters are not a partition of the data')


def tasks(tier):
    o = (None,)
    S = {'1d3': [o] * 3, '2d3': [(None, None)] * 3, 'mix6': [o, (0.,), (1.,), (2.5,), (7.,), (8.,)], 'mix5': [(None, 1.), (0., 0.), (None, 2.), (4., 4.), (5., 3.)]}
    out = []
    for cc in (False, True):
        for link in ('single', 'complete', 'average', 'centroid', 'default'):
            names = ['1d3', 'mix6'] if link == 'default' else ['1d3', '2d3', 'mix6', 'mix5']
            if link == 'centroid':
                names.append('1d4')
                S['1d4'] = [o] * 4
            if tier != 'quick':
                S.update({'1d4': [o] * 4, '1d5': [o] * 5, '2d4': [(None, None)] * 4})
                names += ['1d4', '2d4'] + (['1d5'] if link in ('average', 'centroid') else [])
            for s in dict.fromkeys(names):
                out.append(Task('h_agg', name='agg%s %s %s' % ('[cc]' if cc else '', link, s), cc=cc, spec=S[s], link=link))
        out.append(Task('h_over', cc=cc, link=3))
    return out
