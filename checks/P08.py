import itertools
from common import *
FUNCTIONS = ['pyclustering.cluster.cure.cure (process, __create_queue, __create_kdtree, __merge_clusters, __closest_cluster, __relocate_cluster, __cluster_distance)', 'pyclustering.container.kdtree.kdtree (insert, remove, find_nearest_dist_nodes)',
             'ccore cure_queue::merge/create_queue/get_distance/are_all_elements_same/remove_cluster, cure::process, kdtree, kdtree_searcher', 'cure_interface.cpp, cure_wrapper.py']
BOUNDS = dict(quick='3 symbolic 1-D points and mixed sets of 4..6 points (1-D and 2-D) with 1..2 symbolic coordinates, every number of clusters from n down to 1, 1..3 representatives, compression 0, 0.5, 1 and symbolic', thorough='4 symbolic points, larger mixed sets')
REACH = ['merged-multi', 'two-representatives']


def setup():
    import pyclustering.cluster.cure


def pair_dist(ra, rb):
    m = None
    for a in ra:
        for b in rb:
            v = d2(a, b)
            if m is None or v < m:
                m = v
    return m


def rep_formula(data, members, mean, reps, nrep, comp):
    """reps are scattered points of the cluster, shrunk by the compression"""
    alts = []
    k = len(reps)
    for seq in itertools.permutations(members, k):
        fs = []
        # farthest-first sequence
        for t, p in enumerate(seq):
            if t == 0:
                fs += [ge(d2(data[p], mean) + TOL, d2(data[q], mean)) for q in members]
            else:
                for q in members:
                    # min over chosen for p >= min over chosen for q
                    fs.append(any_([all_([ge(d2(data[p], data[c]) + TOL, d2(data[q], data[e])) for c in seq[:t]]) for e in seq[:t]]))
        # the shrunken points are the reps (as a set)
        tgt = [[R(data[p][d]) + R(comp) * (mean[d] - R(data[p][d])) for d in range(len(mean))] for p in seq]
        for perm in itertools.permutations(range(k)):
            alts.append(all_(fs + [same_point(reps[perm[t]], tgt[t]) for t in range(k)]))
    return any_(alts)


def h_cure(ctx, spec, nrep, comp, levels=None):
    from pyclustering.cluster.cure import cure
    data = mixed(ctx, spec)
    n = len(data)
    c = ctx.real('comp', 0, 1) if comp is None else comp
    prev = None
    for k in range(n, 0, -1):
        inst = cure(copy_points(data), k, nrep, c, ctx.cc)
        inst.process()
        cl, reps, means = [ints(x) for x in inst.get_clusters()], inst.get_representors(), inst.get_means()
        ok = partition(cl, n)
        ctx.check(ok, 'clusters are not a partition of the data')
        ctx.check(len(cl) == k and len(reps) == k and len(means) == k, 'the number of clusters differs from the requested one')
        ctx.obs('k%d' % k, sorted(sorted(x) for x in cl))
        if not ok or len(cl) != k or len(reps) != k or len(means) != k:
            return
        cur = {}
        for x, r, m in zip(cl, reps, means):
            e = mean_of(data, x)
            ctx.check(same_point(m, e), 'a reported mean is not the mean of its cluster')
            ctx.check(1 <= len(r) <= nrep, 'number of representatives out of range')
            if len(r) > 1:
                ctx.reach('two-representatives')
            if len(x) == 1:
                ctx.check(all_([same_point(q, data[x[0]]) for q in r]), 'the representative of a single point is not the point')
            elif prev is not None and frozenset(x) not in prev and len(r) <= len(x):
                distinct = min(nrep, len(x))
                if len(r) < distinct:
                    # fewer only if every point of the cluster coincides with a chosen one
                    tgt = [[R(data[i][d]) + R(c) * (e[d] - R(data[i][d])) for d in range(len(e))] for i in x]
                    ctx.check(all_([any_([same_point(q, t) for q in r]) for t in tgt]), 'representatives are missing although the cluster has more distinct points')
                else:
                    ctx.check(rep_formula(data, x, e, r, nrep, c), 'representatives are not the scattered points shrunk towards the mean')
            cur[frozenset(x)] = r
        if prev is not None:
            new = [x for x in cur if x not in prev]
            gone = [x for x in prev if x not in cur]
            ok = len(new) == 1 and len(gone) == 2 and gone[0] | gone[1] == new[0]
            ctx.check(ok, 'a step does not merge exactly two clusters')
            if not ok:
                return
            if len(gone[0]) + len(gone[1]) > 2:
                ctx.reach('merged-multi')
            m = pair_dist(prev[gone[0]], prev[gone[1]])
            fs = []
            for a, b in itertools.combinations(list(prev), 2):
                if {a, b} != set(gone):
                    fs += [le(m, d2(p, q) + TOL) for p in prev[a] for q in prev[b]]
            ctx.check(all_(fs), 'the merged clusters are not a pair with the closest representatives')
        prev = cur


def tasks(tier):
    o = (None,)
    L = [('1d3', [o] * 3, 2, 0.5), ('1d3', [o] * 3, 1, 0.0), ('1d3', [o] * 3, 3, None), ('mix4', [o, (0.,), (3.,), (7.,)], 2, 0.5), ('mix4', [o, (0.,), o, (7.,)], 1, 0.5), ('mix5', [o, (0.,), (0.,), (4.,), (9.,)], 2, 0.25),
         ('2d4', [(None, 1.), (0., 0.), (4., 0.), (2., 5.)], 2, 0.5), ('2d4', [(2., None), (0., 0.), (4., 0.), (9., 0.)], 1, 1.0), ('2d5', [(None, 3.), (0., 0.), (4., 0.), (2., 2.), (7., 7.)], 1, 0.5), ('2d3', [(None, None), (0., 0.), (4., 0.)], 2, 0.5),
         ('mix6', [o, (0.,), (1.,), (4.,), (6.,), (7.5,)], 2, 0.5), ('refresh5', [o, (0.6,), (1.,), (4.9,), (5.9,)], 1, 0.5), ('refresh5', [o, (0.6,), (1.,), (4.9,), (5.9,)], 2, 0.5),
         ('refresh6', [(3., None), (0.6, 0.), (1., 0.), (4.9, 0.), (5.9, 1.), (9., 9.)], 1, 0.)]
    if tier != 'quick':
        L += [('1d4', [o] * 4, 2, 0.5), ('1d4', [o] * 4, 1, 0.5), ('2d3', [(None, None)] * 3, 2, 0.5), ('2d5', [(None, 3.), (0., None), (4., 0.), (2., 2.), (7., 7.)], 2, 0.5), ('mix7', [o, (0.,), (1.,), (4.,), (6.,), (7.5,), o], 2, 0.3)]
    out = []
    for cc in (False, True):
        for nm, spec, r, c in L:
            if cc and tier == 'quick' and (nm, r) == ('1d3', 3):
                spec = [o, (0.,), o]
            out.append(Task('h_cure', name='cure%s %s r=%d c=%s' % ('[cc]' if cc else '', nm, r, c), cc=cc, spec=spec, nrep=r, comp=c))
    return out
