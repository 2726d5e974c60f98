import itertools
from common import *
FUNCTIONS = ['pyclustering.cluster.bang.bang (process, __allocate_clusters, __expand_cluster_block, __find_block_neighbors, __store_clustering_results)', 'bang_directory (__build_level, __split_block)', 'bang_block, spatial_block (split, is_neighbor, __contains__, volume)', 'pyclustering.utils.data_corners']
BOUNDS = dict(quick='1-D: 3..4 symbolic points, mixed sets of 6; 2-D and 3-D mixed sets; 1..6 levels; density thresholds 0 and symbolic, amount thresholds 0..2', thorough='more symbolic coordinates and levels')
REACH = ['noise', 'two-clusters', 'multi-block', 'border-point', 'early-leaf']


def setup():
    import pyclustering.cluster.bang


def h_bang(ctx, spec, levels, amount=(0,), density=0.0):
    from pyclustering.cluster.bang import bang
    data = mixed(ctx, spec)
    n, dim = len(data), len(data[0])
    A = ctx.pick('amount', list(amount))
    D = ctx.real('density', 0, 4) if density is None else density
    inst = bang(copy_points(data), levels, density_threshold=D, amount_threshold=A)
    inst.process()
    clusters, noise = [ints(c) for c in inst.get_clusters()], ints(inst.get_noise())
    ctx.obs('clusters', sorted(sorted(c) for c in clusters))
    ctx.check(partition(clusters, n, noise), 'clusters and noise are not a partition of the data')
    lo, hi = [], []
    for d in range(dim):
        a = b = R(data[0][d])
        for p in data[1:]:
            if R(p[d]) < a:
                a = R(p[d])
            if R(p[d]) > b:
                b = R(p[d])
        lo.append(a)
        hi.append(b)
    size = [b - a for a, b in zip(lo, hi)]
    flat = [bool(s == 0) for s in size]
    ctx.assume(all_([f or ge(s, 1) for f, s in zip(flat, size)]))
    # the documented tree: node = per dimension (numerator, depth), region = lo + size * [k, k+1] / 2**depth
    def corners(node):
        return [(lo[d] + size[d] * Fraction(k, 2 ** e), lo[d] + size[d] * Fraction(k + 1, 2 ** e)) for d, (k, e) in enumerate(node)]

    def inside(node):
        box = corners(node)
        return [i for i in range(n) if all(bool(R(data[i][d]) >= box[d][0]) and bool(R(data[i][d]) <= box[d][1]) for d in range(dim))]

    def dens(node, pts):
        if all(flat):
            return Fraction(0)
        v = Fraction(1)
        for d, (k, e) in enumerate(node):
            if not flat[d]:
                v = v * size[d] * Fraction(1, 2 ** e)
        return len(pts) / v
    leafs = []
    level = [(tuple((0, 0) for _ in range(dim)), list(range(n)))]
    if levels > 1:
        for l in range(1, levels):
            nxt = []
            for node, pts in level:
                if len(pts) <= A or bool(dens(node, pts) <= D):
                    leafs.append((node, pts))
                    ctx.reach('early-leaf')
                    continue
                s = l % dim
                for h in (0, 1):
                    child = node[:s] + ((node[s][0] * 2 + h, node[s][1] + 1),) + node[s + 1:]
                    nxt.append((child, inside(child)))
            level = nxt
    leafs += level
    got = inst.get_directory().get_leafs()
    ok = len(got) == len(leafs)
    ctx.check(ok, 'the amount of leaf blocks differs from the documented division')
    if not ok:
        return
    # match by region: compare the multisets through the points and the corners
    rest = list(leafs)
    fs = []
    for b in got:
        mx, mn = b.get_spatial_block().get_corners()
        cand = [x for x in rest if all_near(mx, mn, corners(x[0]))]
        ctx.check(len(cand) > 0, 'a leaf block is not one of the regions of the documented division')
        if not cand:
            return
        rest.remove(cand[0])
        ctx.check(sorted(ints(b.get_points() or [])) == cand[0][1], 'a leaf block does not hold exactly the points of its region')
        fs.append(near(R(b.get_density()), dens(*cand[0])))
    ctx.check(all_(fs), 'the density of a block is not the amount of its points divided by its volume')
    dense = [(nd, p) for nd, p in leafs if len(p) > A and bool(dens(nd, p) > D)]
    if sum(len(p) for _, p in leafs) > n:
        ctx.reach('border-point')

    def adjacent(a, b):
        for (k, e), (q, f) in zip(a, b):
            m = max(e, f)
            a0, a1, b0, b1 = k << (m - e), (k + 1) << (m - e), q << (m - f), (q + 1) << (m - f)
            if a1 < b0 or b1 < a0:
                return False
        return True
    seen, comps = set(), []
    for i in range(len(dense)):
        if i in seen:
            continue
        todo, comp = [i], []
        seen.add(i)
        while todo:
            x = todo.pop()
            comp.append(x)
            for y in range(len(dense)):
                # identical regions arise along a flat dimension
                if y not in seen and adjacent([s for s, f in zip(dense[x][0], flat) if not f], [s for s, f in zip(dense[y][0], flat) if not f]):
                    seen.add(y)
                    todo.append(y)
        comps.append(sorted({p for y in comp for p in dense[y][1]}))
        if len(comp) > 1:
            ctx.reach('multi-block')
    if len(comps) > 1:
        ctx.reach('two-clusters')
    ctx.check(sorted(sorted(c) for c in clusters) == sorted(comps), 'clusters are not the connected groups of dense blocks')
    exp = sorted(set(range(n)) - {p for c in comps for p in c})
    if exp:
        ctx.reach('noise')
    ctx.check(sorted(noise) == exp, 'noise is not the points outside the dense blocks')
    dend = inst.get_dendrogram()
    ctx.check([sorted({p for b in l for p in ints(b.get_points() or [])}) for l in dend] == [sorted(c) for c in clusters], 'the dendrogram of a cluster does not hold its points')
    ctx.check(sum(len(l) for l in dend) == len(dense) and len({id(b) for l in dend for b in l}) == len(dense), 'the dendrogram does not hold every dense block once')
    ctx.check(all_([ge(R(l[0].get_density()), R(b.get_density()) - TOL) for l in dend if l for b in l]), 'the first block of a dendrogram is not the densest one of its cluster')


def all_near(mx, mn, box):
    for a, b, (l, h) in zip(mx, mn, box):
        for u, v in ((a, h), (b, l)):
            t = R(u) - R(v)
            if isinstance(t, core.SymReal):
                if not (bool(t <= TOL) and bool(t >= -TOL)):
                    return False
            elif abs(t) > TOL:
                return False
    return True


def tasks(tier):
    o = (None,)
    cube = [(0., 0., 0.), (24., 24., 24.)]
    arms = [(12. + 6 * a, 12. + 6 * b, 12. + 6 * c) for a in (-1, 1) for b in (-1, 1) for c in (-1, 1)]
    L = [('1d3', [o] * 3, 1, (0, 3), 0.0), ('1d3', [o] * 3, 2, (0, 1), 0.0), ('1d3', [o] * 3, 3, (0,), 0.0), ('1d4', [o] * 4, 2, (0, 1, 2), 0.0), ('1d3', [o] * 3, 2, (0,), None),
         ('1d6', [o, (0.,), (1.,), (9.,), (16.,), (16.,)], 4, (0, 1, 2), 0.0), ('1d6', [o, (0.,), (1.,), (9.,), (16.,), (16.,)], 4, (0,), 0.75), ('1d5', [o, (0.,), (16.,), (2.,), o], 4, (0,), 0.0),
         ('2d4', [(None, 1.), (0., 0.), (8., 8.), (6., 2.)], 4, (0, 1), 0.0), ('2d4', [(None, None), (0., 0.), (8., 8.), (6., 1.)], 3, (0,), 0.0), ('2d6', [(None, 1.), (0., 0.), (8., 8.), (6., 7.), (7., 1.), (1., 7.)], 5, (0, 1), 0.0), ('2dflat', [(None, 1.), (0., 1.), (8., 1.)], 4, (0,), 0.0),
         ('3d', [(None, 13., 13.), (0., 0., 0.), (24., 24., 24.)] + [(9., 3., 3.), (9., 3., 15.), (9., 15., 3.)], 7, (0,), 0.0),
         ('3d27', [(None, 10., 10.), (0., 0., 0.), (32., 32., 32.)] + [(4. + 8 * a, 4. + 8 * b, 4. + 8 * c) for a in (0, 1, 2) for b in (0, 1, 2) for c in (0, 1, 2) if (a, b, c) in ((0, 0, 0), (0, 0, 2), (0, 2, 0), (0, 2, 2), (2, 0, 0), (2, 0, 2), (2, 2, 0), (2, 2, 2), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1))], 7, (0,), 0.0)]
    if tier != 'quick':
        L += [('1d4', [o] * 4, 3, (0, 1), 0.0), ('1d3', [o] * 3, 4, (0,), 0.0), ('2d3', [(None, None), (None, None), (0., 0.)], 3, (0,), 0.0), ('2d5', [(None, None), (0., 0.), (8., 8.), (6., 1.), (3., 3.)], 5, (0, 1), 0.0)]
    return [Task('h_bang', name='bang %s levels=%d density=%s' % (nm, lv, de), spec=spec, levels=lv, amount=am, density=de) for nm, spec, lv, am, de in L]
