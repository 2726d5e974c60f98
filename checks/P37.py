import itertools
from common import *
FUNCTIONS = ['pyclustering.utils.sampling.reservoir_r, reservoir_x', 'pyclustering.utils: distances between clusters, average_neighbor_distance, calculate_distance_matrix, data_corners, find_left_element, linear_sum, square_sum, list_math_*, norm_vector, heaviside, rgb2gray, gray_pattern_borders, extract_number_oscillations',
             'pyclustering.utils.dimension.dimension_info, pyclustering.cluster.generator.data_generator']
BOUNDS = dict(quick='samples of 0..3 of 0..5 elements with every value of the random generators; clusters of 1..3 points of 1..2 dimensions with symbolic coordinates; lists of up to 5 numbers; images of up to 3x2 pixels; generated data of up to 4 points, draws within six standard deviations; oscillations of up to 5 steps', thorough='samples of 0..4 of 0..7 elements, clusters of up to 4 points, images of up to 3x3 pixels')
REACH = ['replaced', 'kept', 'skipped', 'refused', 'dark', 'oscillation', 'generated']


def setup():
    import pyclustering.utils, pyclustering.utils.sampling, pyclustering.utils.dimension, pyclustering.cluster.generator


class record:
    def __init__(self, ctx):
        self.ctx, self.draws, self.c, self.r = ctx, [], ctx.choose, ctx.rnd01
        ctx.choose, ctx.rnd01 = self.choose, self.rnd01

    def choose(self, n):
        v = self.c(n)
        self.draws.append((n, v))
        return v

    def rnd01(self):
        v = self.r()
        self.draws.append((None, v))
        return v

    def stop(self):
        self.ctx.__dict__.pop('choose', None)
        self.ctx.__dict__.pop('rnd01', None)


def h_sampling(ctx, alg, total, n):
    """every element gets into the sample with the probability n / N by the draws of the algorithm, the data are not changed"""
    import pyclustering.utils.sampling as S
    data = [10 + i for i in range(total)]
    given = list(data)
    rec = record(ctx)
    try:
        r = getattr(S, 'reservoir_' + alg)(given, n)
    except ValueError:
        r = None
    finally:
        rec.stop()
    ctx.obs('sample', r)
    if n > total:
        ctx.reach('refused')
        ctx.check(r is None, 'a sample larger than the data is not refused')
        return
    ctx.check(r is not None and len(r) == n and len(set(r)) == n and set(r) <= set(data), 'the sample does not hold n different elements of the data')
    ctx.check(given == data, 'the data are changed by sampling')
    if r is None:
        return
    draws = rec.draws
    exp = data[:n]
    if n == 0:
        return
    if alg == 'r':
        ok = [d[0] for d in draws] == list(range(n + 1, total + 1))
        ctx.check(ok, 'an element of the stream is not compared with all elements before it')
        if not ok:
            return
        for i, (_, m) in zip(range(n, total), draws):
            if m < n:
                exp[m] = data[i]
    else:
        i, k = n, 0
        while i < total:
            ok = k < len(draws) and draws[k][0] is None
            ctx.check(ok, 'the amount of elements to skip is not drawn')
            if not ok:
                return
            u, s, p = R(draws[k][1]), 0, Fraction(i + 1 - n, i + 1)
            k += 1
            while i + s < total:
                if bool(abs(u - p) <= TOL):
                    return              # rounding decides
                if bool(p <= u):
                    break
                s += 1
                p *= Fraction(i + s + 1 - n, i + s + 1)
            if s:
                ctx.reach('skipped')
            i += s
            if i < total:
                ok = k < len(draws) and draws[k][0] == n
                ctx.check(ok, 'the replaced element is not drawn')
                if not ok:
                    return
                exp[draws[k][1]] = data[i]
                k += 1
            i += 1
    ctx.reach('kept' if exp == data[:n] else 'replaced')
    ctx.check(r == exp, 'elements are not kept by the probabilities of the algorithm')


def mean(ps):
    return mean_of(ps, range(len(ps)))


def scatter(ps):
    m, s = mean(ps), Fraction(0)
    for p in ps:
        s = s + d2(p, m)
    return s


def h_clusters(ctx, a, b, lo=-10, hi=10):
    """distances between clusters are the documented ones for clusters of points and for indexes of data"""
    import pyclustering.utils as U
    p = mixed(ctx, a + b, lo, hi)
    A, B = p[:len(a)], p[len(a):]
    ia, ib = list(range(len(a))), list(range(len(a), len(p)))
    inter = Fraction(0)
    for x in A:
        for y in B:
            inter = inter + d2(x, y)
    inter = inter / (len(a) * len(b))
    intra = Fraction(0)
    for x in p:
        for y in p:
            intra = intra + d2(x, y)
    n = len(p)
    intra = intra / (n * (n - 1))
    var = scatter(p) - scatter(A) - scatter(B)
    for how, args in (('points', (A, B)), ('indexes', (ia, ib, p))):
        r = U.average_inter_cluster_distance(*args)
        ctx.check(all_([ge(r, 0), near(R(r) * R(r), inter)]), 'average inter cluster distance of %s is not the documented one' % how)
        r = U.average_intra_cluster_distance(*args)
        ctx.check(all_([ge(r, 0), near(R(r) * R(r), intra)]), 'average intra cluster distance of %s is not the documented one' % how)
        ctx.check(near(U.variance_increase_distance(*args), var), 'variance increase distance of %s is not the documented one' % how)
    r = U.euclidean_distance(A[0], B[0])
    ctx.check(all_([ge(r, 0), near(R(r) * R(r), d2(A[0], B[0]))]), 'euclidean distance')
    ctx.check(near(U.euclidean_distance_square(A[0], B[0]), d2(A[0], B[0])), 'square of the euclidean distance')
    s = Fraction(0)
    for x, y in zip(A[0], B[0]):
        s = s + abs(R(x) - R(y))
    ctx.check(near(U.manhattan_distance(A[0], B[0]), s), 'manhattan distance')
    r = U.norm_vector(A[0])
    ctx.check(all_([ge(r, 0), near(R(r) * R(r), d2(A[0], [0] * len(A[0])))]), 'norm of a vector')


def h_data(ctx, spec, neighbours, lo=-10, hi=10):
    """corners, dimension information, matrix of distances, distances to the closest neighbours"""
    import pyclustering.utils as U
    from pyclustering.utils.dimension import dimension_info
    from pyclustering.utils.metric import distance_metric, type_metric
    p = mixed(ctx, spec, lo, hi)
    n, dim = len(p), len(p[0])
    given = copy_points(p)
    for f in (None, list(range(n - 1, 0, -1)) or [0]):
        mn, mx = U.data_corners(given, f)
        sel = p if f is None else [p[i] for i in f]
        for d in range(dim):
            ctx.check(all_([min_f([q[d] for q in sel], mn[d]), max_f([q[d] for q in sel], mx[d])]), 'corners are not minimum and maximum coordinates')
    i = dimension_info(given)
    ctx.check(i.get_dimensions() == dim, 'amount of dimensions')
    w, c, mn, mx = i.get_width(), i.get_center(), i.get_minimum_coordinate(), i.get_maximum_coordinate()
    for d in range(dim):
        ctx.check(all_([min_f([q[d] for q in p], mn[d]), max_f([q[d] for q in p], mx[d]), near(w[d], R(mx[d]) - R(mn[d])), near(R(c[d]) * 2, R(mx[d]) + R(mn[d]))]), 'information about dimensions is not that of the data')
    m = U.calculate_distance_matrix(given, distance_metric(type_metric.EUCLIDEAN_SQUARE))
    ctx.check(len(m) == n and all(len(r) == n for r in m), 'form of the distance matrix')
    ctx.check(all_([near(m[a][b], d2(p[a], p[b])) for a in range(n) for b in range(n)]), 'a value of the distance matrix is not the distance')
    if dim == 1 and neighbours:
        r = U.average_neighbor_distance(given, neighbours)
        s = Fraction(0)
        for a in range(n):
            ds = []
            for b in range(n):
                if a != b:
                    v = abs(R(p[a][0]) - R(p[b][0]))
                    k = len(ds)
                    while k and bool(v < ds[k - 1]):
                        k -= 1
                    ds.insert(k, v)
            for v in ds[:neighbours]:
                s = s + v
        ctx.check(near(R(r) * (n * neighbours), s), 'the average distance to the closest neighbours is not the documented one')
        try:
            U.average_neighbor_distance(given, n)
            ok = False
        except NameError:
            ok = True
        ctx.check(ok, 'more neighbours than there are are not refused')
    ctx.check(all_([same_point(a, b) for a, b in zip(given, p)]), 'the data are changed')


def h_lists(ctx, n):
    """operations on lists, sums, search in a sorted list"""
    import pyclustering.utils as U
    a = [ctx.real('a%d' % i, -5, 5) for i in range(n)]
    b = [ctx.real('b%d' % i, 1, 5) for i in range(n)]
    c = ctx.real('c', 1, 5)
    E = [('list_math_subtraction', (a, b), lambda x, y: x - y), ('list_math_addition', (a, b), lambda x, y: x + y), ('list_math_multiplication', (a, b), lambda x, y: x * y),
         ('list_math_substraction_number', (a, c), lambda x, y: x - y), ('list_math_addition_number', (a, c), lambda x, y: x + y), ('list_math_multiplication_number', (a, c), lambda x, y: x * y)]
    for name, args, f in E:
        r = getattr(U, name)(*args)
        ctx.check(len(r) == n and all_([near(r[i], f(R(a[i]), R(b[i] if isinstance(args[1], list) else c))) for i in range(n)]), name)
    for name, args in (('list_math_division', (a, b)), ('list_math_division_number', (a, c))):
        r = getattr(U, name)(*args)
        ctx.check(all_([near(R(r[i]) * R(b[i] if isinstance(args[1], list) else c), a[i]) for i in range(n)]), name)
    if n:
        s, q = Fraction(0), Fraction(0)
        for x in a:
            s, q = s + R(x), q + R(x) * R(x)
        ctx.check(near(U.linear_sum(list(a)), s), 'linear sum of numbers')
        ctx.check(near(U.square_sum(list(a)), q), 'square sum of numbers')
        pts = [[a[i], b[i]] for i in range(n)]
        ls = U.linear_sum(pts)
        t = Fraction(0)
        for x in b:
            t = t + R(x)
            q = q + R(x) * R(x)
        ctx.check(len(ls) == 2 and all_([near(ls[0], s), near(ls[1], t)]), 'linear sum of points')
        ctx.check(near(U.square_sum(pts), q), 'square sum of points')
    v = ctx.real('v', -1, 1)
    ctx.check(U.heaviside(v) == (1.0 if bool(v > 0) else 0.0), 'heaviside')


def h_left(ctx, n, right):
    """the leftmost of equal elements is found"""
    import pyclustering.utils as U
    a = [ctx.real('a%d' % i, -5, 5) for i in range(n)]
    for i in range(n - 1):
        ctx.assume(le(a[i], a[i + 1]))
    r = U.find_left_element(a, right, lambda x, y: x < y)
    ctx.obs('left', r)
    e = right
    while e and bool(a[e - 1] == a[right]):
        e -= 1
    ctx.check(r == e, 'the found element is not the leftmost of equal ones')


class image:
    def __init__(self, w, h, px):
        self.size, self.px = (w, h), px

    def getdata(self): return list(self.px)


def h_image(ctx, w, h):
    """gray values and borders of dark content"""
    import pyclustering.utils as U
    px = [(ctx.real('r%d' % i, 0, 255), 100.0, 50.0) for i in range(w * h)]
    g = U.rgb2gray(px)
    ctx.check(len(g) == w * h and all_([near(g[i], R(px[i][0]) * Fraction('0.2989') + 587 * Fraction(100, 1000) + Fraction('5.7')) for i in range(w * h)]), 'gray values are not weighted sums of the colors')
    r = U.gray_pattern_borders(image(w, h, px))
    edge = Fraction(128) - Fraction('64.4')
    for p in px:
        ctx.assume(any_([ge(R(p[0]) * Fraction('0.2989'), edge + Fraction(1, 1000)), le(R(p[0]) * Fraction('0.2989'), edge - Fraction(1, 1000))]))
    dark = [(i % w, i // w) for i in range(w * h) if bool(R(px[i][0]) * Fraction('0.2989') < edge)]
    if not dark:
        return
    ctx.reach('dark')
    xs, ys = [d[0] for d in dark], [d[1] for d in dark]
    ctx.obs('borders', [int(v) for v in r])
    ctx.check([int(v) for v in r] == [min(xs), min(ys), max(xs) + 1, max(ys) + 1], 'borders are not those of the dark content')


def h_oscillations(ctx, n, index):
    """an oscillation is counted when the amplitude has passed the threshold up and down"""
    import pyclustering.utils as U
    a = [ctx.real('a%d' % i, -3, 3) for i in range(n)]
    t = 1.0
    for x in a:
        ctx.assume(any_([ge(x, t + 0.001), le(x, t - 0.001)]))
    dyn = [[7.0] * index + [x] + [0.0] for x in a]
    r = U.extract_number_oscillations(dyn, index, t)
    high = [bool(x > t) for x in a]
    # complete passes: down, after an up or down pass before it
    passes = [high[i] for i in range(1, n) if high[i] != high[i - 1]]
    count, waiting = 0, False
    for p in passes:
        if waiting and not p:
            count, waiting = count + 1, False
        else:
            waiting = True
    if count:
        ctx.reach('oscillation')
    ctx.obs('oscillations', r)
    ctx.check(r == count, 'the amount of oscillations is not that of passes over the threshold up and down')


def h_generator(ctx, sizes, dim, centers, widths):
    """the requested amount of points around every center, spread in proportion to the width of the cluster"""
    import pyclustering.cluster.generator as G
    n = len(sizes)
    draws, old = [], ctx.rnd01

    def rnd01():
        v = old()
        draws.append(R(v))
        return v
    ctx.rnd01 = rnd01
    c = [[ctx.real('c%d_%d' % (i, d), -50, 50) for d in range(dim)] for i in range(n)] if centers else None
    w = [ctx.real('w%d' % i, 0, 20) if v is None else v for i, v in enumerate(widths)]
    one = ctx.pick('scalar', [0, 1]) if len(set(sizes)) == 1 else 0
    g = G.data_generator(n, dim, sizes[0] if one else list(sizes), [list(p) for p in c] if c else None, list(w) if len(w) == n else w[0])
    w = w if len(w) == n else w * n
    first = len(draws)
    pts = g.generate()
    ok = len(pts) == sum(sizes) and all(len(p) == dim for p in pts)
    ctx.check(ok, 'not the requested amount of points of the requested dimension')
    if not ok:
        return
    ctx.check(len(draws) - first == sum(sizes) * dim, 'not one draw per coordinate')
    k, total, weight = 0, Fraction(0), Fraction(0)
    if c is None:
        # centers are drawn as well: cluster i around i times an offset, the same one for every cluster
        ctx.check(first == n * dim, 'not one draw per coordinate of a center')
        return
    fs = []
    for i in range(n):
        mine = pts[k:k + sizes[i]]
        k += sizes[i]
        own = draws[first + (k - sizes[i]) * dim: first + k * dim]
        dev = sum([R(x) - R(c[i][d]) for p in mine for d, x in enumerate(p)], Fraction(0))
        ref = R(w[i]) * sum([12 * v - 6 for v in own], Fraction(0))
        fs.append((dev, ref))
        for p in mine:
            for d, x in enumerate(p):
                ctx.check(all_([le(R(x) - R(c[i][d]), 6 * R(w[i]) + TOL), ge(R(x) - R(c[i][d]), -6 * R(w[i]) - TOL)]), 'a point is not around the center of its cluster')
    ctx.reach('generated')
    # the width is the standard deviation or twice that
    ctx.check(any_([all_([near(a * f, b, TOL * 100) for a, b in fs]) for f in (1, 2)]), 'the spread of a cluster does not follow its width')


def tasks(tier):
    q = tier == 'quick'
    out = []
    top = 5 if q else 7
    for alg in 'rx':
        for total in range(0, top + 1):
            for n in range(0, min(total, 3 if q else 4) + 2):
                if (q and total == 5 and n == 3 and alg == 'r') or n > total + 1 or (n > total and total > 2): continue
                out.append(Task('h_sampling', name='reservoir_%s %d of %d' % (alg, n, total), rng=True, alg=alg, total=total, n=n))
    N = None
    for a, b in [([[N]], [[N]]), ([[N], [N]], [[N]]), ([[N, N]], [[N, N]]), ([[N], [N]], [[N], [N]]), ([[N, 1.0], [2.0, N]], [[0.0, N]])]:
        out.append(Task('h_clusters', name='clusters %dx%d dim=%d' % (len(a), len(b), len(a[0])), a=a, b=b))
    for spec, k in [([[N]], 0), ([[N], [N]], 1), ([[N], [N], [N]], 1), ([[N], [N], [N]], 2), ([[N, N], [N, 1.0]], 0), ([[N, 0.0], [N, 1.0], [2.0, N]], 0)] + ([] if q else [([[N], [N], [N], [N]], 2), ([[N], [N], [N], [1.0]], 3)]):
        out.append(Task('h_data', name='data %d dim=%d neighbours=%d' % (len(spec), len(spec[0]), k), spec=spec, neighbours=k))
    for n in (0, 1, 2, 3):
        out.append(Task('h_lists', name='lists %d' % n, n=n))
    for n in range(1, 6):
        for right in range(n):
            out.append(Task('h_left', name='left %d of %d' % (right, n), n=n, right=right))
    for w, h in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)] + ([] if q else [(2, 3), (3, 3)]):
        out.append(Task('h_image', name='image %dx%d' % (w, h), w=w, h=h))
    for n in range(1, 6 if q else 8):
        out.append(Task('h_oscillations', name='oscillations %d' % n, n=n, index=n % 2))
    for sizes, dim, centers, widths in [([2, 1], 1, True, [None, None]), ([2, 2], 1, True, [None]), ([1, 1], 2, True, [None, 3.0]), ([3], 2, True, [0.0]), ([1, 2], 1, False, [1.0, 2.0]), ([0, 2], 1, True, [None, 1.0])]:
        out.append(Task('h_generator', name='generator sizes=%s dim=%d centers=%s widths=%s' % (sizes, dim, centers, widths), rng=True, sizes=sizes, dim=dim, centers=centers, widths=widths))
    return out
