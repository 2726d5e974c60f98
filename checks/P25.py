import math, pickle
from common import *
FUNCTIONS = ['pyclustering.nnet.som.som (create connections, uniform grid, random surface, train, competition, adaptation, autostop, simulate, get_distance_matrix, get_density_matrix, get_winner_number, pickle state)',
             'pyclustering.cluster.somsc.somsc', 'ccore nnet::som (constructor, create_connections, create_initial_weights, train, competition, adaptation, calculate_maximal_adaptation, load, simulate)', 'som_interface.cpp, pyclustering.core.som_wrapper']
BOUNDS = dict(quick='maps of up to 2x3 and 3x2 neurons (structure of the connections: every map up to 4x4), the four kinds of connections, 2..4 points of one to three dimensions with one or two symbolic coordinates in [-100,100], 1..3 epochs, automatic stop with a symbolic threshold, uniform grid and random weights (random numbers symbolic)', thorough='more points and larger maps')
REACH = ['neighbor adapted', 'autostop', 'all epochs', 'idle neuron', 'random']
KIND = ['grid_four', 'grid_eight', 'honeycomb', 'func_neighbor']


def setup():
    import pyclustering.nnet.som, pyclustering.cluster.somsc


def neighbors(kind, rows, cols, i):
    """neighbors of neuron i by the geometry of the map"""
    r, c = divmod(i, cols)
    if kind == 'grid_four':
        s = [(r - 1, c), (r + 1, c), (r, c - 1), (r, c + 1)]
    elif kind == 'grid_eight':
        s = [(r + a, c + b) for a in (-1, 0, 1) for b in (-1, 0, 1) if a or b]
    elif kind == 'honeycomb':
        k = 0 if r % 2 == 0 else -1       # odd rows are shifted to the left by half of a cell
        s = [(r, c - 1), (r, c + 1), (r - 1, c + k), (r - 1, c + k + 1), (r + 1, c + k), (r + 1, c + k + 1)]
    else:
        return [j for j in range(rows * cols)]
    return [a * cols + b for a, b in s if 0 <= a < rows and 0 <= b < cols]


def radius0(rows, cols):
    return 2.0 if (rows + cols) / 4.0 > 1.0 else 1.5 if rows > 1 and cols > 1 else 1.0


def nearest(w, x):
    """index of the nearest weight; None when it is not unique"""
    ds = [R(d2(a, x)) for a in w]
    b = 0
    for i in range(1, len(ds)):
        if ds[i] < ds[b]:
            b = i
    for i in range(len(ds)):
        if i != b and ds[i] - ds[b] <= TOL:
            return None
    return b


def grid(data, rows, cols):
    dim = len(data[0])
    mn, mx = [], []
    for d in range(dim):
        a = b = R(data[0][d])
        for p in data[1:]:
            if R(p[d]) < a:
                a = R(p[d])
            if R(p[d]) > b:
                b = R(p[d])
        mn.append(a)
        mx.append(b)
    out = []
    for i in range(rows * cols):
        loc = divmod(i, cols)
        w = []
        for d in range(dim):
            cnt = (rows, cols)[d] if d < 2 else 1
            w.append(mn[d] + (mx[d] - mn[d]) * Fraction(loc[d], cnt - 1) if cnt > 1 else (mn[d] + mx[d]) * half)
        out.append(w)
    return out


def adapt(w, kind, rows, cols, win, x, rate, radius, ctx):
    where = [win] + [j for j in neighbors(kind, rows, cols, win) if j != win]
    for j in where:
        (a, b), (c, d) = divmod(win, cols), divmod(j, cols)
        dd = (a - c) ** 2 + (b - d) ** 2
        if j != win:
            if not dd < radius:
                continue
            ctx.reach('neighbor adapted')
        f = Fraction(rate * math.exp(-(dd / (2.0 * radius))) if j != win else rate)
        w[j] = [v + f * (R(y) - v) for v, y in zip(w[j], x)]


def matrices(ctx, net, w, data, kind, rows, cols):
    n = rows * cols
    if n > 1 and kind != 'func_neighbor':
        m = net.get_distance_matrix()
        for i in range(n):
            nb = neighbors(kind, rows, cols, i)
            s = Fraction(0)
            for j in nb:
                s = s + d2(w[i], w[j])
            ctx.check(near(R(m[i // cols][i % cols]) * len(nb), s), 'an element of the distance matrix is not the mean squared distance to the neighbors')


def density(ctx, net, w, data, rows, cols, divider):
    dim = len(data[0])
    m = net.get_density_matrix(divider)
    rad = []
    for d in range(dim):
        a = b = R(w[0][d])
        for v in w[1:]:
            if R(v[d]) < a:
                a = R(v[d])
            if R(v[d]) > b:
                b = R(v[d])
        rad.append((b - a) * Fraction(1) / Fraction(divider))
    for i in range(rows * cols):
        fs = []
        for p in data:
            for d in range(dim):
                if abs(abs_(R(p[d]) - R(w[i][d])) - rad[d]) <= TOL:
                    return
            fs.append(all(bool(R(p[d]) - R(w[i][d]) <= rad[d]) and bool(R(w[i][d]) - R(p[d]) <= rad[d]) for d in range(dim)))
        ctx.check(int(m[i // cols][i % cols]) == sum(fs), 'an element of the density matrix is not the amount of points around the neuron')


def h_som(ctx, spec, rows, cols, kind, epochs, autostop=False, init='uniform_grid', threshold=None, extra=(), radius=None, rate=0.1):
    """training follows the documented competition and adaptation from the documented initial weights"""
    from pyclustering.nnet.som import som, som_parameters, type_conn, type_init
    data = mixed(ctx, spec)
    n = rows * cols
    p = som_parameters()
    p.init_type = getattr(type_init, init)
    p.init_learn_rate = rate
    p.random_state = 7
    if radius:
        p.init_radius = radius
    if autostop:
        p.adaptation_threshold = ctx.real('t', 0, 20) if threshold is None else threshold
    thr = p.adaptation_threshold
    net = som(rows, cols, getattr(type_conn, kind), p, ccore=ctx.cc)
    if init == 'uniform_grid':
        w = grid(data, rows, cols)
    else:
        ctx.reach('random')
        orig = copy_points(data)
        ctx.check(int(net.train(copy_points(data), 0)) == 0, 'training without epochs reports epochs')
        w = [list(x) for x in net.weights]
        ctx.check(len(w) == n and all(len(x) == len(data[0]) for x in w), 'wrong shape of the weights')
        if init == 'random_surface':
            for d in range(len(data[0])):
                ctx.check(all_([any_([le(R(q[d]) - TOL, R(x[d])) for q in data]) for x in w] + [any_([ge(R(q[d]) + TOL, R(x[d])) for q in data]) for x in w]), 'a random weight is outside of the data surface')
        if init == 'random_centroid':
            for d in range(len(data[0])):
                mn, mx = [R(q[d]) for q in data], None
                lo = hi = mn[0]
                for v in mn[1:]:
                    lo, hi = (v, hi) if v < lo else (lo, v) if v > hi else (lo, hi)
                ctx.check(all_([le(abs_(R(x[d]) - (lo + hi) * half), 1 + TOL) for x in w]), 'a random weight is not around the center of the data')
        return
    orig = copy_points(data)
    done = int(net.train(data, epochs, autostop))
    ctx.obs('epochs', done)
    ctx.check(1 <= done <= epochs, 'the amount of performed epochs is wrong')
    if not 1 <= done <= epochs:
        return
    r0 = radius or radius0(rows, cols)
    caps = None
    for e in range(1, done + 1):
        before = [list(x) for x in w]
        rad, rt = (r0 * math.exp(-(e / epochs))) ** 2, rate * math.exp(-(e / epochs))
        caps = [[] for _ in range(n)]
        for i, x in enumerate(orig):
            win = nearest(w, x)
            if win is None:
                return
            caps[win].append(i)
            adapt(w, kind, rows, cols, win, x, rt, rad, ctx)
        if autostop and (e > 1 or done == e < epochs):
            m = Fraction(0)
            for a, b in zip(before, w):
                for u, v in zip(a, b):
                    if abs_(u - v) > m:
                        m = abs_(u - v)
            if e < done:
                ctx.check(ge(m, R(thr) - TOL), 'training goes on although no weight was adapted by the threshold')
            elif e < epochs:
                ctx.reach('autostop')
                ctx.check(le(m, R(thr) + TOL), 'training stops although a weight was adapted by more than the threshold')
    if done == epochs:
        ctx.reach('all epochs')
    got = [list(x) for x in net.weights]
    ctx.check(len(got) == n, 'wrong amount of weights')
    if len(got) != n:
        return
    ctx.obs('w', got)
    ctx.check(all_([same_point(a, b) for a, b in zip(got, w)]), 'the weights after training are not those of the documented adaptation')
    gc = [ints(c) for c in net.capture_objects]
    ctx.check(gc == caps, 'captured objects are not the objects won by each neuron in the last epoch')
    ctx.check(ints(net.awards) == [len(c) for c in caps], 'awards are not the amounts of captured objects')
    ctx.check(int(net.get_winner_number()) == sum(1 for c in caps if c), 'the amount of winners is wrong')
    ctx.check(int(net.size) == n and len(net) == n, 'the size of the map is wrong')
    if any(not c for c in caps):
        ctx.reach('idle neuron')
    ctx.check(all_([same_point(a, b, 0) for a, b in zip(orig, data)]), 'the data of the user are modified')
    if 'matrix' in extra:
        matrices(ctx, net, got, data, kind, rows, cols)
    if 'density' in extra:
        density(ctx, net, got, data, rows, cols, 2.0)
    if 'simulate' in extra:
        q = [ctx.real('q%d' % d, -100, 100) for d in range(len(data[0]))]
        k = int(net.simulate(list(q)))
        ctx.check(0 <= k < n, 'simulation returns no neuron')
        if 0 <= k < n:
            ctx.check(all_([le(d2(got[k], q), d2(g, q) + TOL) for g in got]), 'simulation does not return the nearest neuron')
    if 'again' in extra:
        done2 = int(net.train(data, epochs, autostop))
        ctx.check(done2 == done and [ints(c) for c in net.capture_objects] == gc, 'a second training of the same map on the same data differs')
        ctx.check(ints(net.awards) == [len(c) for c in gc], 'awards of a second training are wrong')
    if 'state' in extra:
        st = net.__getstate__()
        other = som.__new__(som)
        other.__setstate__(st)
        ctx.check(all_([same_point(a, b, 0) for a, b in zip(other.weights, got)]), 'a restored map has other weights')
        ctx.check([ints(c) for c in other.capture_objects] == gc and ints(other.awards) == [len(c) for c in gc], 'a restored map has other captured objects')
        if 'simulate' in extra:
            ctx.check(int(other.simulate(list(q))) == k, 'a restored map simulates differently')


def h_structure(ctx, sizes):
    """neighbors of every neuron by the geometry of the map"""
    from pyclustering.nnet.som import som, type_conn
    from pyclustering.core import som_wrapper
    rows, cols = ctx.pick('size', sizes)
    kind = ctx.pick('kind', KIND[:3])
    net = som(rows, cols, getattr(type_conn, kind), None, ccore=ctx.cc)
    nb = som_wrapper.som_get_neighbors(net._som__ccore_som_pointer) if ctx.cc else net._neighbors
    nb = [ints(x) for x in nb]
    ctx.check(len(nb) == rows * cols, 'wrong amount of neurons')
    i = ctx.int('i', 0, rows * cols - 1)
    i = int(i)
    ctx.check(sorted(nb[i]) == sorted(neighbors(kind, rows, cols, i)), 'the neighbors of a neuron do not follow the structure of the map')
    ctx.check(len(net) == rows * cols, 'wrong size')


def h_somsc(ctx, spec, k, epochs):
    """SOM-SC: clusters are the objects captured by the neurons of a 1 x k map, prediction is the nearest neuron"""
    from pyclustering.cluster.somsc import somsc
    data = mixed(ctx, spec)
    inst = somsc(data, k, epochs, ccore=ctx.cc)
    inst.process()
    c = [ints(x) for x in inst.get_clusters()]
    ctx.obs('clusters', c)
    ctx.check(partition(c, len(spec), allow_empty=True) and len(c) == k, 'clusters do not contain every point exactly once')
    net = inst._somsc__network
    w = [list(x) for x in net.weights]
    q = [[ctx.real('q%d' % d, -100, 100) for d in range(len(data[0]))] for _ in range(1)]
    r = ints(inst.predict(q))
    ctx.check(len(r) == 1 and 0 <= r[0] < k, 'no cluster is predicted')
    if len(r) == 1 and 0 <= r[0] < k:
        ctx.check(all_([le(d2(w[r[0]], q[0]), d2(x, q[0]) + TOL) for x in w]), 'the predicted cluster is not the one with the closest neuron')


def tasks(tier):
    out = []
    big = tier != 'quick'
    sizes = [(r, c) for r in range(1, 5) for c in range(1, 5)]
    for cc in (False, True):
        out.append(Task('h_structure', cc=cc, sizes=sizes))

        def add(spec, rows, cols, kind, epochs, **kw):
            out.append(Task('h_som', name='%dx%d %s %d epochs %s %s' % (rows, cols, kind, epochs, spec, ' '.join('%s=%s' % x for x in kw.items())), cc=cc, spec=spec, rows=rows, cols=cols, kind=kind, epochs=epochs, **kw))
        add([[0], [10], [None]], 2, 1, 'grid_four', 2, extra=('simulate', 'state', 'again'))
        add([[None], [0], [4], [9]], 3, 1, 'grid_eight', 1, extra=('matrix', 'density'))
        add([[None], [3]], 1, 1, 'grid_four', 2, extra=('simulate',))
        add([[0, 0], [6, 2], [None, 5]], 2, 2, 'grid_four', 1, extra=('matrix', 'state'))
        add([[0, 0], [6, None], [2, 5]], 2, 2, 'grid_eight', 2, extra=('matrix',), rate=0.5)
        add([[0, 0], [6, None], [9, 5]], 2, 2, 'honeycomb', 1, extra=('matrix', 'density'))
        add([[0, 0], [6, None], [9, 5]], 2, 3, 'honeycomb', 1)
        add([[0, 0], [None, 6], [9, 5]], 3, 2, 'func_neighbor', 1, extra=('state',))
        add([[0, 1], [None, 6], [9, 5]], 2, 3, 'func_neighbor', 2, radius=3.0)
        add([[0, 1, 2], [4, None, 6], [9, 5, 1]], 2, 2, 'grid_eight', 1)
        add([[0], [1], [7], [8]], 2, 1, 'grid_four', 4, autostop=True, extra=('again',))
        add([[0], [1], [7], [8]], 2, 2, 'func_neighbor', 3, autostop=True)
        add([[0], [None], [7]], 3, 1, 'grid_four', 3, autostop=True, threshold=0.5)
        for init in ('random_surface', 'random', 'random_centroid'):
            add([[0, None], [5, 3]], 1, 2, 'grid_four', 1, init=init)
        out.append(Task('h_somsc', name='somsc 2', cc=cc, spec=[[0, 0], [5, None], [7, 7]], k=2, epochs=2))
        out.append(Task('h_somsc', name='somsc 3', cc=cc, spec=[[0, 1], [3, 4], [None, 9]], k=3, epochs=1))
        if big:
            add([[0], [None], [4], [None]], 3, 1, 'grid_eight', 2, extra=('matrix', 'density'))
            add([[0, 0], [6, None], [2, 5], [8, 8]], 3, 3, 'grid_eight', 2, extra=('matrix',))
            add([[0, 0], [None, 6], [9, 5], [3, 1]], 3, 3, 'honeycomb', 2)
            add([[0, 0], [None, None], [9, 5]], 2, 2, 'grid_four', 2, extra=('matrix', 'simulate'))
    return out
