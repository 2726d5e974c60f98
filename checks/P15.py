import itertools
from common import *
FUNCTIONS = ['pyclustering.container.cftree.cftree (insert_point, insert, __recursive_insert, __insert_for_leaf_node, __insert_for_noneleaf_node, __split_procedure, __split_leaf_node, __split_nonleaf_node, __merge_nearest_successors, find_nearest_leaf, get_level_nodes)', 'leaf_node, non_leaf_node (insert, merge, get_farthest_*, get_nearest_*)', 'cfentry (__add__, get_centroid, get_radius, get_diameter, get_distance)', 'pyclustering.utils.linear_sum, square_sum']
BOUNDS = dict(quick='sequences of up to 9 points, 1..2 symbolic coordinates each in [-100,100], branch factor 2..3, 1..3 entries per leaf, thresholds 0..2, centroid Euclidean / Manhattan and variance-increase measurements; CF entries of up to 3+3 one- or two-dimensional symbolic points for the five measurements', thorough='11 points')
REACH = ['leaf', 'height2', 'height3', 'merged-entry', 'nearest-leaf', 'descended']


def setup():
    import pyclustering.container.cftree


def feature_of(points):
    dim = len(points[0])
    ls = [sum((R(p[d]) for p in points), Fraction(0)) for d in range(dim)]
    ss = sum((R(x) * R(x) for p in points for x in p), Fraction(0))
    return len(points), ls, ss


def as_list(x):
    return [e for e in x] if hasattr(x, '__len__') else [x]


def same_feature(e, n, ls, ss):
    return all_([int(e.number_points) == n, near(R(e.square_sum), ss, TOL * 1000)] + [near(R(a), b) for a, b in zip(as_list(e.linear_sum), ls)])


def structure(ctx, t, points, mt):
    from pyclustering.container.cftree import cfnode_type
    leaves, count = [], [0]
    depth = set()

    def rec(node, parent, level):
        count[0] += 1
        ctx.check(node.parent is parent, 'the parent of a node is wrong')
        if node.type == cfnode_type.CFNODE_LEAF:
            leaves.append(node)
            depth.add(level)
            ctx.check(0 < len(node.entries) <= t.max_entries, 'a leaf holds more entries than allowed')
            parts = node.entries
        else:
            ctx.check(0 < len(node.successors) <= t.branch_factor, 'a node has more successors than the branch factor')
            for s in node.successors:
                rec(s, node, level + 1)
            parts = [s.feature for s in node.successors]
        n = sum(int(p.number_points) for p in parts)
        ls = [sum((R(as_list(p.linear_sum)[d]) for p in parts), Fraction(0)) for d in range(len(points[0]))]
        ss = sum((R(p.square_sum) for p in parts), Fraction(0))
        ctx.check(same_feature(node.feature, n, ls, ss), 'the feature of a node is not the sum of the features below it')
    rec(t.root, None, 1)
    ctx.check(len(depth) == 1 and depth == {t.height}, 'the leaves are not on one level, or the reported height is wrong')
    ctx.check(len(leaves) == len(t.leafes) and all(any(l is m for m in t.leafes) for l in leaves), 'the list of leaves is not the leaves of the tree')
    ctx.check(t.amount_nodes == count[0], 'the reported amount of nodes is wrong')
    ctx.check(t.amount_entries == sum(len(l.entries) for l in leaves), 'the reported amount of entries is wrong')
    ctx.reach('leaf' if t.height == 1 else 'height2' if t.height == 2 else 'height3')
    n, ls, ss = feature_of(points)
    ctx.check(same_feature(t.root.feature, n, ls, ss), 'the root does not summarise exactly the inserted points')
    for level in range(t.height):
        nodes = t.get_level_nodes(level)
        ctx.check(sum(int(x.feature.number_points) for x in nodes) == n, 'the nodes of a level do not cover every point')
    return leaves


def diameter2(e):
    """squared diameter: the mean squared distance between the points of an entry, times n (n - 1)"""
    n = int(e.number_points)
    ls = as_list(e.linear_sum)
    return 2 * n * R(e.square_sum) - 2 * sum((R(x) * R(x) for x in ls), Fraction(0)), n * (n - 1)


def cdist(mt, a, b):
    """distance of CF entries for the centroid measurements"""
    ca = [R(x) * Fraction(1, int(a.number_points)) for x in as_list(a.linear_sum)]
    cb = [R(x) * Fraction(1, int(b.number_points)) for x in as_list(b.linear_sum)]
    return d2(ca, cb) if mt == 0 else manhattan(ca, cb)


def h_tree(ctx, spec, bf, me, thr, mt):
    from pyclustering.container.cftree import cftree, measurement_type, cfentry, cfnode_type
    from pyclustering.utils import linear_sum, square_sum
    points = mixed(ctx, spec)
    m = measurement_type(mt)
    t = cftree(bf, me, thr, m)
    for i, p in enumerate(points):
        path = None
        if i == len(points) - 1 and i and mt < 2:
            # the new point goes to the leaf that is reached through the nearest successors
            node, path = t.root, []
            x = cfentry(1, list(p), sum((v * v for v in p), 0.0))
            before = {id(l): int(l.feature.number_points) for l in t.leafes}
            while node.type == cfnode_type.CFNODE_NONLEAF:
                ds = [cdist(mt, s.feature, x) for s in node.successors]
                path.append((ds, [sorted(ids(s)) for s in node.successors]))
                nxt = t.find_nearest_leaf(x, node)
                k = [j for j, s in enumerate(node.successors) if id(nxt) in ids(s)]
                ok = len(k) == 1
                ctx.check(ok, 'the nearest leaf is not a leaf of the tree')
                if not ok:
                    return
                ctx.check(all_([le(ds[k[0]], d + TOL) for d in ds]), 'the nearest leaf is not reached through the nearest successors')
                ctx.reach('nearest-leaf')
                node = node.successors[k[0]]
            leaves_before = list(t.leafes)
        t.insert_point(list(p))
        if path:
            # the leaf that grew, was split or disappeared
            grown = [l for l in leaves_before if not any(l is y for y in t.leafes) or int(l.feature.number_points) != before[id(l)]]
            grown = [l for l in grown if not any(l is y for y in t.leafes)] or grown
            if len(grown) == 1:
                ctx.reach('descended')
                for ds, sub in path:
                    k = [j for j, s in enumerate(sub) if id(grown[0]) in s]
                    if not k:
                        break
                    ctx.check(all_([le(ds[k[0]], d + TOL) for d in ds]), 'a point is not inserted through the nearest successors')
        leaves = structure(ctx, t, points[:i + 1], m)
    for l in leaves:
        for e in l.entries:
            if int(e.number_points) > 1:
                ctx.reach('merged-entry')
                a, b = diameter2(e)
                ctx.check(le(a, Fraction(thr) * Fraction(thr) * b + TOL), 'points farther than the threshold are merged to one entry')


def ids(node):
    from pyclustering.container.cftree import cfnode_type
    if node.type == cfnode_type.CFNODE_LEAF:
        return {id(node)}
    return set().union(*[ids(s) for s in node.successors])


def h_entry(ctx, na, nb, dim, mt):
    """distances of CF entries against their definition over the points they summarise"""
    from pyclustering.container.cftree import cfentry, measurement_type
    from pyclustering.utils import linear_sum, square_sum
    A, B = ctx.points('a', na, dim, -10, 10), ctx.points('b', nb, dim, -10, 10)
    ea, eb = cfentry(na, linear_sum(copy_points(A)), square_sum(copy_points(A))), cfentry(nb, linear_sum(copy_points(B)), square_sum(copy_points(B)))
    ctx.check(same_feature(ea, *feature_of(A)), 'linear sum or square sum of points is wrong')
    c = [R(x) for x in as_list(ea.get_centroid())]
    ma, mb = mean_of(A, range(na)), mean_of(B, range(nb))
    ctx.check(same_point(c, ma), 'the centroid of an entry is not the mean of its points')
    s = ea + eb
    n, ls, ss = feature_of(A + B)
    ctx.check(same_feature(s, n, ls, ss), 'the sum of two entries does not summarise the points of both')
    ctx.check(same_feature(ea, *feature_of(A)), 'a sum changes its operands')
    v = R(ea.get_distance(eb, measurement_type(mt)))
    if mt == 0:
        ctx.check(near(v, d2(ma, mb), TOL * 100), 'the centroid Euclidean distance is wrong')
    elif mt == 1:
        ctx.check(near(v, manhattan(ma, mb)), 'the centroid Manhattan distance is wrong')
    elif mt == 2:
        ref = sum((d2(a, b) for a in A for b in B), Fraction(0)) * Fraction(1, na * nb)
        ctx.check(all_([near(v * v, ref, TOL * 100), ge(v, 0)]), 'the average inter-cluster distance is wrong')
    elif mt == 3:
        P = A + B
        ref = sum((d2(a, b) for a in P for b in P), Fraction(0)) * Fraction(1, n * (n - 1))
        ctx.check(all_([near(v * v, ref, TOL * 100), ge(v, 0)]), 'the average intra-cluster distance is wrong')
    else:
        m = mean_of(A + B, range(n))
        ref = sum((d2(p, m) for p in A + B), Fraction(0)) - sum((d2(p, ma) for p in A), Fraction(0)) - sum((d2(p, mb) for p in B), Fraction(0))
        ctx.check(near(v, ref, TOL * 100), 'the variance increase distance is wrong')
    r = R(ea.get_radius())
    ref = sum((d2(p, ma) for p in A), Fraction(0)) * Fraction(1, na)
    ctx.check(near(r * r, ref, TOL * 100), 'the radius is not the root of the mean squared distance to the centroid')
    if na > 1:
        d = R(ea.get_diameter())
        ref = sum((d2(a, b) for a in A for b in A), Fraction(0)) * Fraction(1, na * (na - 1))
        ctx.check(near(d * d, ref, TOL * 100), 'the diameter is not the root of the mean squared distance between the points')


def tasks(tier):
    o = (None,)
    out = []
    L = [([o] * 3, 2, 1, 0.5, 0), ([o] * 4, 2, 1, 0., 1), ([o] * 3, 2, 2, 2.0, 0), ([o, (0.,), (1.,), (5.,), (6.,), (20.,), (5.5,)], 2, 1, 0.25, 0), ([(5.5,), (0.,), (1.,), (5.,), (6.,), (20.,), o], 2, 1, 0.25, 0), ([(0.,), (1.,), (5.,), (6.,), (20.,), (21.,), (4.5,), (3.,), o], 2, 2, 0.25, 0),
         ([(0.,), (8.,), (1.,), (5.,), (2.,), (6.,), (12.,), (20.,), (4.,), o], 3, 1, 0.25, 0), ([(0., 0.), (8., 1.), (1., 5.), (5., 5.), (9., 9.), (None, 4.)], 2, 1, 0.5, 1), ([(0., 0.), (8., 1.), (1., 5.), (5., 5.), (9., 9.), (3., None)], 2, 2, 2.0, 0),
         ([(0.,), (8.,), (1.,), (5.,), (2.,), (5.5,), (12.,), (20.,), o], 2, 1, 0.25, 1), ([o, (0.,), (4.,), (9.,), (2.,), (11.,)], 2, 1, 0.25, 4), ([(0.,), (4.,), (9.,), (2.,), (11.,), o], 3, 2, 1.0, 4), ([(0.,), (0.,), (3.,), (3.,), o, (0.,)], 2, 2, 0., 0)]
    # nodes are merged after a split, and leaves below them are split afterwards
    L += [([(24.,), (12.,), (26.,), (37.,), o, (14.,), (13.,), (40.,)], 3, 1, 0.25, 0), ([(8.,), (16.,), (0.,), (9.,), (2.,), o, (17.,)], 3, 1, 0.25, 1), ([(17.,), (26.,), (1.,), (36.,), (15.,), (16.,), o, (3.,)], 4, 1, 0.25, 0),
          ([(11.,), (25.,), (40.,), (23.,), (26.,), (5.,), o, (4.,), (12.,)], 3, 2, 0.25, 1), ([(25.,), (24.,), (13.,), (39.,), o, (9.,), (31.,)], 3, 1, 0.25, 4), ([(3., 0.), (12., 12.), (26., 1.), (37., 7.), (14., None), (13., 3.), (30., 5.)], 3, 1, 0.25, 0)]
    if tier != 'quick':
        L += [([(24.,), (12.,), (26.,), (37.,), o, (14.,), o, (40.,)], 3, 1, 0.25, 0), ([(8.,), (16.,), (0.,), o, (2.,), o, (17.,), (5.,)], 3, 1, 0.25, 1)]
        L += [([o] * 5, 2, 1, 0.25, 1), ([o, (0.,), (1.,), (5.,), (6.,), (20.,), o, (9.,), o], 2, 1, 0.25, 1), ([(0.,), (8.,), (1.,), (5.,), (2.,), (6.,), (12.,), (20.,), (4.,), (4.5,), o], 2, 1, 0.25, 0)]
    for spec, bf, me, thr, mt in L:
        out.append(Task('h_tree', name='tree n=%d dim=%d free=%d bf=%d me=%d thr=%s mt=%d' % (len(spec), len(spec[0]), sum(v is None for p in spec for v in p), bf, me, thr, mt), spec=spec, bf=bf, me=me, thr=thr, mt=mt))
    for na, nb, dim in ((1, 1, 1), (2, 1, 1), (2, 2, 1), (1, 2, 2), (3, 3, 1)):
        for mt in range(5):
            out.append(Task('h_entry', name='entry %d+%d dim=%d mt=%d' % (na, nb, dim, mt), na=na, nb=nb, dim=dim, mt=mt))
    return out
