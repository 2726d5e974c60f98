import itertools
from common import *
FUNCTIONS = ['pyclustering.cluster.clique.clique (process, __create_grid, __get_spatial_location, __expand_cluster, __get_neighbors), clique_block, spatial_block, coordinate_iterator', 'ccore clique::*, clique_block::*, coordinate_iterator', 'clique_interface.cpp, clique_wrapper.py']
BOUNDS = dict(quick='1-D: 3 symbolic points with 1..4 intervals, mixed sets of 6..7 points with up to 10 intervals; 2-D: 2..6 points with 1..3 intervals; 3-D: 2 intervals; density thresholds 0..2', thorough='more symbolic coordinates')
REACH = ['noise', 'multi-cell', 'two-clusters', 'degenerate']


def setup():
    import pyclustering.cluster.clique


def h_clique(ctx, spec, intervals, thr):
    from pyclustering.cluster.clique import clique
    data = mixed(ctx, spec)
    n, dim = len(data), len(data[0])
    T = ctx.pick('threshold', list(thr))
    inst = clique(copy_points(data), intervals, T, ccore=ctx.cc)
    inst.process()
    clusters, noise, cells = [ints(c) for c in inst.get_clusters()], ints(inst.get_noise()), inst.get_cells()
    ctx.obs('clusters', sorted(sorted(c) for c in clusters))
    ctx.check(partition(clusters, n, noise), 'clusters and noise are not a partition of the data')
    locs = [tuple(ints(c.logical_location)) for c in cells]
    ctx.check(sorted(locs) == sorted(itertools.product(range(intervals), repeat=dim)), 'the cells are not the complete grid')
    pts = [ints(c.points) for c in cells]
    ok = sorted(i for p in pts for i in p) == list(range(n))
    ctx.check(ok, 'the points are not distributed over the cells')
    lo, hi = [], []
    for d in range(dim):
        a = b = R(data[0][d])
        for p in data[1:]:
            if R(p[d]) < a:
                a = R(p[d])
            if R(p[d]) > b:
                b = R(p[d])
        lo.append(a)
        hi.append(b)
    if any(bool(lo[d] == hi[d]) for d in range(dim)):
        ctx.reach('degenerate')
    fs = []
    fb = []
    for c, l, p in zip(cells, locs, pts):
        mx, mn = c.spatial_location.get_corners()
        for d in range(dim):
            s = (hi[d] - lo[d]) * Fraction(1, intervals)
            fb += [near(mn[d], lo[d] + s * l[d]), near(mx[d], lo[d] + s * (l[d] + 1))]
            for i in p:
                fs += [ge(R(data[i][d]), lo[d] + s * l[d] - TOL), le(R(data[i][d]), lo[d] + s * (l[d] + 1) + TOL)]
    ctx.check(all_(fb), 'the corners of a cell are not those of its place in the grid')
    ctx.check(all_(fs), 'a point lies outside its cell')
    if not ok:
        return
    dense = {l: p for l, p in zip(locs, pts) if len(p) > T}
    seen, comps = set(), []
    for l in dense:
        if l in seen:
            continue
        todo, comp = [l], []
        seen.add(l)
        while todo:
            x = todo.pop()
            comp.append(x)
            for d in range(dim):
                for s in (-1, 1):
                    y = x[:d] + (x[d] + s,) + x[d + 1:]
                    if y in dense and y not in seen:
                        seen.add(y)
                        todo.append(y)
        comps.append(comp)
    if any(len(c) > 1 for c in comps):
        ctx.reach('multi-cell')
    if len(comps) > 1:
        ctx.reach('two-clusters')
    exp = sorted(sorted(i for l in c for i in dense[l]) for c in comps)
    ctx.check(sorted(sorted(c) for c in clusters) == exp, 'clusters are not the connected groups of dense cells')
    exp_noise = sorted(i for l, p in zip(locs, pts) if len(p) <= T for i in p)
    if exp_noise:
        ctx.reach('noise')
    ctx.check(sorted(noise) == exp_noise, 'noise is not the content of the sparse cells')


def tasks(tier):
    o = (None,)
    L = [('1d3', [o] * 3, 3, (0, 1)), ('1d3', [o] * 3, 1, (0, 3)), ('1d4', [o] * 4, 2, (0, 1, 2)), ('1d7', [o, (0.,), (1.,), (3.,), (4.,), (9.,), (10.,)], 10, (0, 1)), ('1d7', [o, (0.,), (1.,), (3.,), (4.,), (9.,), (10.,)], 5, (1, 2)),
         ('2d2', [(None, None), (0., 0.)], 2, (0, 1)), ('2d5', [(None, 1.), (0., 0.), (4., 4.), (1., 1.), (0., 4.)], 3, (0, 1)), ('2d6', [(None, None), (0., 0.), (3., 3.), (1., 1.), (2., 2.), (0., 3.)], 3, (0, 1)), ('3d4', [(None, 0., 1.), (0., 0., 0.), (2., 2., 2.), (2., 0., 2.)], 2, (0, 1)),
         ('1d12', [o, (0.,), (24.,)], 12, (0,)), ('2d4', [(None, 0.), (12., 1.), (0., 2.), (5., 12.)], 11, (0,)),
         ('2d7', [(None, 1.5), (0., 0.), (12., 12.), (10.5, 1.5), (1.5, 11.5), (1.5, 10.5), (11.5, 2.5)], 12, (0,)), ('2d7y', [(1.5, None), (0., 0.), (12., 12.), (1.5, 10.5), (11.5, 1.5), (10.5, 1.5), (2.5, 11.5)], 12, (0,))]
    if tier != 'quick':
        L += [('1d4', [o] * 4, 4, (0, 1)), ('2d3', [(None, None)] * 3, 2, (0, 1)), ('2d6', [(None, None), (0., None), (3., 3.), (1., 1.), (2., 2.), (0., 3.)], 3, (0, 1)), ('3d4', [(None, None, None), (0., 0., 0.), (2., 2., 2.), (2., 0., 2.)], 2, (0, 1)), ('1d16', [o, (0.,), (24.,), o], 16, (0, 1))]
    out = []
    for cc in (False, True):
        for nm, spec, k, t in L:
            out.append(Task('h_clique', name='clique%s %s intervals=%d' % ('[cc]' if cc else '', nm, k), cc=cc, spec=spec, intervals=k, thr=t))
    return out
