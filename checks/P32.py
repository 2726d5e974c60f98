import math
from common import *
FUNCTIONS = ['pyclustering.cluster.ema.ema (expectation, maximization, clusters, probabilities, termination), gaussian, ema_initializer', 'pyclustering.cluster.ema.ema_observer']
BOUNDS = dict(quick='2..4 points of 1..2 dimensions, 1..3 clusters, 1..2 iterations; arbitrary symbolic densities in [0,3] (the density function is replaced by them), then symbolic points, means and 1-D variances of the density function itself and fixed 2-D covariances; initializer with every drawn object (two attempts to find another object instead of ten)', thorough='4 points, 3 clusters, 3 iterations')
REACH = ['empty cluster', 'impossible cluster', 'two clusters', 'stopped early', 'density']


def setup():
    import pyclustering.cluster.ema


def dens(ctx, spec):
    """density function that returns arbitrary values: spec[call][point], None is a symbolic one"""
    calls = []

    def gaussian(data, mean, covariance):
        k = len(calls)
        row = [ctx.real('g%d_%d' % (k, i), 0, 3) if spec[k % len(spec)][i] is None else spec[k % len(spec)][i] for i in range(len(data))]
        calls.append((mean, covariance, row))
        return row
    return gaussian, calls


def vec(x):
    return [R(v) for v in (x.tolist() if hasattr(x, 'tolist') else x)]


def h_steps(ctx, pts, k, spec, iterations):
    """E-step, M-step and clusters follow the formulas for any densities"""
    from pyclustering.cluster import ema as mod
    data = mixed(ctx, pts, -5, 5)
    n, m = len(data), len(data[0])
    g, calls = dens(ctx, spec)
    mod.gaussian, old = g, mod.gaussian
    obs = mod.ema_observer()
    try:
        means = [[float(i)] * m for i in range(k)]
        cov = [np_eye(m) for _ in range(k)]
        e = mod.ema(copy_points(data), k, means, cov, obs, tolerance=0.0, iterations=iterations)
        e.process()
    finally:
        mod.gaussian = old
    done = len(obs)
    ctx.check(done == obs.get_iterations() and 1 <= done <= iterations, 'wrong amount of iterations')
    pic = [Fraction(1)] * k
    at, live = 0, k
    for it in range(done):
        got = calls[at:at + live]
        at += live
        ctx.check(len(got) == live, 'densities are not computed once per cluster')
        if len(got) != live:
            return
        G = [[R(v) for v in c[2]] for c in got]
        if it:
            ctx.check(all_([near(a, b) for c, mu in zip(got, mus) for a, b in zip(vec(c[0]), mu)]), 'densities are not computed for the current means')
        rc = []
        for c in range(live):
            row = []
            for i in range(n):
                s = sum((pic[d] * G[d][i] for d in range(live)), Fraction(0))
                row.append(pic[c] * G[c][i] / s if s != 0 else Fraction(1))
            rc.append(row)
        mc = [sum(r) for r in rc]
        keep = [c for c in range(live) if mc[c] != 0]
        if len(keep) < live:
            ctx.reach('impossible cluster')
        mu = [[sum(rc[c][i] * R(data[i][d]) for i in range(n)) / mc[c] for d in range(m)] for c in keep]
        var = [[[sum(rc[c][i] * (R(data[i][a]) - mu[x][a]) * (R(data[i][b]) - mu[x][b]) for i in range(n)) / mc[c] for b in range(m)] for a in range(m)] for x, c in enumerate(keep)]
        rc = [rc[c] for c in keep]
        pic = [mc[c] / n for c in keep]
        cl = [ints(c) for c in obs.get_evolution_clusters()[it]]
        ctx.check(partition(cl, n), 'clusters are not a partition of the data')
        if not partition(cl, n):
            return
        # clusters without points are erased: which ones are left is told by the means
        gm, gv = [vec(x) for x in obs.get_evolution_means()[it]], obs.get_evolution_covariances()[it]
        ctx.check(len(gm) == len(gv), 'not one covariance per mean')
        if len(gm) == len(cl):
            left, x = [], 0
            owner = [[j for j in range(len(keep)) if all(bool(rc[j][i] >= rc[l][i]) for l in range(len(keep)))] for i in range(n)]
            # ties go to the first cluster
            owner = [o[0] for o in owner]
            left = sorted(set(owner))
            if len(left) < len(keep):
                ctx.reach('empty cluster')
            if len(left) > 1:
                ctx.reach('two clusters')
            ctx.check([[i for i in range(n) if owner[i] == j] for j in left] == cl, 'an object is not in the cluster of its largest probability')
            ctx.check(len(cl) == len(left), 'clusters without objects are not erased')
            if len(cl) != len(left):
                return
            ctx.check(all_([near(a, b) for x, j in enumerate(left) for a, b in zip(gm[x], mu[j])]), 'a mean is not the mean weighted by the probabilities')
            ctx.check(all_([near(R(gv[x][a][b]), var[j][a][b]) for x, j in enumerate(left) for a in range(m) for b in range(m)]), 'a covariance is not the covariance weighted by the probabilities')
        else:
            ctx.check(False, 'not one mean per cluster')
            return
        rc, pic, mus = [rc[j] for j in left], [pic[j] for j in left], gm
        live = len(left)
    prob = [[R(v) for v in r] for r in e.get_probabilities()]
    ctx.check([ints(c) for c in e.get_clusters()] == cl, 'reported clusters are not those of the last iteration')
    ctx.check(all_([near(a, b) for x, y in zip(e.get_centers(), mus) for a, b in zip(vec(x), y)]) if len(e.get_centers()) == len(mus) else False, 'reported centers are not those of the last iteration')
    ctx.check(len(e.get_covariances()) == len(cl) and len(prob) == len(cl) and all(len(r) == n for r in prob), 'not one covariance and row of probabilities per cluster')
    if len(prob) != len(cl):
        return
    for i in range(n):
        s = sum((r[i] for r in prob), Fraction(0))
        ctx.check(near(s, 1, Fraction(1, 10 ** 5)), 'probabilities of an object do not sum to one')
        for j in range(len(prob)):
            for l in range(len(prob)):
                if j < l:
                    ctx.check(near(prob[j][i] * rc[l][i], prob[l][i] * rc[j][i]), 'normalization changes the proportion of probabilities')


def np_eye(m):
    import numpy
    return numpy.eye(m)


def h_stop(ctx, tol, iterations):
    """iterations stop as soon as the likelihood changes by at most the tolerance"""
    from pyclustering.cluster import ema as mod
    data = [[0.0], [1.0], [3.0]]
    rows = [[[0.5, 0.25, 0.125], [0.25, 0.5, 1.0]]]
    first = ctx.real('r', 0.1, 3)
    seq = [first, ctx.real('s', 0.1, 3), 1.0, 1.0]
    calls = []

    def g(d, mean, cov):
        f = seq[min(len(calls) // 2, 3)]
        row = [x * f for x in rows[0][len(calls) % 2]]
        calls.append(row)
        return row
    mod.gaussian, old = g, mod.gaussian
    obs = mod.ema_observer()
    try:
        e = mod.ema(data, 2, [[0.0], [3.0]], [np_eye(1), np_eye(1)], obs, tolerance=tol, iterations=iterations).process()
    finally:
        mod.gaussian = old
    # likelihood: sum of log(p_1 g_1 + p_2 g_2), probabilities of the clusters are those of the last step
    pic = [Fraction(1)] * 2
    prev, cur, it = Fraction(-200000), Fraction(-100000), 0

    def log(x):
        return core.sym_fun('log', x) if isinstance(x, core.SymReal) else Fraction(math.log(float(x)))
    while it < iterations and abs_(prev - cur) > Fraction(tol):
        G = [[R(v) for v in c] for c in calls[2 * it:2 * it + 2]]
        if len(G) < 2:
            return ctx.check(False, 'iterations are stopped although the likelihood changes')
        rc = [[pic[c] * G[c][i] / (pic[0] * G[0][i] + pic[1] * G[1][i]) for i in range(3)] for c in range(2)]
        pic = [sum(r) * Fraction(1, 3) for r in rc]
        prev, cur = cur, sum((log(pic[0] * G[0][i] + pic[1] * G[1][i]) for i in range(3)), Fraction(0))
        d = abs_(abs_(prev - cur) - Fraction(tol))
        it += 1
        if it < iterations and d <= Fraction(1, 10 ** 6):
            return
    if it < iterations:
        ctx.reach('stopped early')
    ctx.check(len(obs) == it, 'iterations do not stop when the likelihood changes by at most the tolerance')


def h_gaussian1(ctx, n):
    """density of a normal distribution"""
    from pyclustering.cluster.ema import gaussian
    import numpy
    x = [[ctx.real('x%d' % i, -5, 5)] for i in range(n)]
    mu, v = ctx.real('mu', -5, 5), ctx.pick('v', [0.25, 1.0, 4.0, 0.5])
    r = gaussian(numpy.array(x), numpy.array([mu]), numpy.array([[v]]) if ctx.choose(2) else v)
    ctx.reach('density')
    ctx.check(len(r) == n, 'not one density per object')
    for p, g in zip(x, r):
        d = R(p[0]) - R(mu)
        a = -d * d * Fraction(1, 2) * (1 / Fraction(v))
        e = core.sym_fun('exp', a) if isinstance(a, core.SymReal) else Fraction(math.exp(float(a)))
        g = first(g)
        ctx.check(same(g, e, 1 / math.sqrt(2 * math.pi * v)), 'not the density of the normal distribution')


def same(g, e, k):
    """g is k * e up to rounding"""
    w = e * Fraction(k) * Fraction(1, 10 ** 6)
    return all_([le(g - e * Fraction(k), w), ge(g - e * Fraction(k), -w)])


def first(g):
    while not isinstance(g, core.SymReal) and (hasattr(g, 'tolist') or isinstance(g, (list, tuple))):
        g = g.tolist() if hasattr(g, 'tolist') else g[0]
    return R(g)


def h_gaussian2(ctx, cov):
    """density of a multidimensional normal distribution"""
    from pyclustering.cluster.ema import gaussian
    import numpy
    x = [ctx.real('x', -1, 1), ctx.real('y', -1, 1)]
    mu = [ctx.real('mx', -1, 1), 0.5]
    g = first(gaussian(numpy.array([x]), numpy.array(mu), numpy.array(cov))[0])
    (a, b), (_, c) = cov
    det = Fraction(a) * Fraction(c) - Fraction(b) ** 2
    dx, dy = R(x[0]) - R(mu[0]), R(x[1]) - R(mu[1])
    q = -(dx * dx * Fraction(c) - dx * dy * 2 * Fraction(b) + dy * dy * Fraction(a)) * Fraction(1, 2) * (1 / det)
    norm = math.sqrt(float(a) ** 2 + 2 * float(b) ** 2 + float(c) ** 2)
    if isinstance(q, core.SymReal):
        # the inverse matrix is computed in floating point: any monotone function of nearly the same argument
        args = [(v, d) for v, d in core.Engine.cur.aux_defs.items() if d[0] == 'exp']
        ctx.check(len(args) == 1, 'density is not one exponent')
        if len(args) != 1:
            return
        v, d = args[0]
        ctx.check(near(core.SymReal(d[1]), q, Fraction(1, 10 ** 6)), 'exponent is not the scaled square distance')
        e = core.SymReal({(v,): Fraction(1)})
    else:
        e = Fraction(math.exp(float(q)))
    ok = same(g, e, 1 / (2 * math.pi * math.sqrt(float(det))))
    ctx.check(ok, 'not the density of the normal distribution', known=('P32-norm-determinant', same(g, e, 1 / (2 * math.pi * math.sqrt(norm)))))


def h_initialize(ctx, pts, k, kind):
    """initial means are objects (or averages of objects) and covariances are those of the nearest objects"""
    from pyclustering.cluster.ema import ema_initializer, ema_init_type
    data = mixed(ctx, pts, -5, 5)
    n, m = len(data), len(data[0])
    ema_initializer._ema_initializer__MAX_GENERATION_ATTEMPTS = 2       # ten in the code
    means, cov = ema_initializer(copy_points(data), k).initialize(getattr(ema_init_type, kind))
    means = [vec(x) for x in means]
    ctx.check(len(means) == len(cov) == k, 'not one initial mean and covariance per cluster')
    for x in means:
        for d in range(m):
            lo, hi = R(data[0][d]), R(data[0][d])
            for p in data:
                v = R(p[d])
                if v < lo: lo = v
                if v > hi: hi = v
            # a repeated mean is moved by at most a tenth of its value
            w = abs_(lo) if abs_(lo) > abs_(hi) else abs_(hi)
            ctx.check(all_([ge(x[d], lo - w * Fraction(1, 10) - TOL), le(x[d], hi + w * Fraction(1, 10) + TOL)]), 'an initial mean is outside the data')
    cl = [[] for _ in range(k)]
    for i in range(n):
        best = 0
        for c in range(1, k):
            if d2(data[i], means[c]) < d2(data[i], means[best]):
                best = c
        cl[best].append(i)
    for c in range(k):
        s = len(cl[c])
        if s < 2:
            continue
        mu = [sum(R(data[i][d]) for i in cl[c]) * Fraction(1, s) for d in range(m)]
        for a in range(m):
            for b in range(m):
                v = sum((R(data[i][a]) - mu[a]) * (R(data[i][b]) - mu[b]) for i in cl[c]) * Fraction(1, s - 1)
                g = cov[c].tolist() if hasattr(cov[c], 'tolist') else cov[c]
                ctx.check(near(R(g[a][b] if m > 1 else first(g)), v), 'an initial covariance is not that of the nearest objects')


def tasks(tier):
    q = tier == 'quick'
    N = None
    out = []
    # densities that are fixed are such that the code computes with them without rounding
    for name, pts, k, spec, it in (('1-D k=2', [[N], [1.0], [2.5]], 2, [[N, 0.5, 0.75], [0.25, N, 0.25]], 1), ('2-D k=2', [[N, 0.0], [1.0, N], [2.5, 1.0]], 2, [[0.75, 0.5, N], [0.25, 0.5, 0.5]], 1),
                                   ('1-D k=3', [[0.0], [1.0], [2.5], [N]], 3, [[0.5, N, 0.25, 0.25], [1.0, 0.5, 0.5, 0.25], [0.5, 0.25, 0.25, 0.5]], 1),
                                   ('zero densities', [[N], [1.0], [2.5]], 3, [[0.0, N, 0.0], [0.5, 0.25, 0.5], [0.5, 0.5, N]], 1),
                                   ('all zero', [[N], [1.0], [2.5]], 2, [[0.0, N, 0.5], [0.0, N, 0.0]], 1),
                                   ('two iterations', [[N], [1.0], [2.5], [3.0]], 2, [[0.75, 0.5, 0.75, 0.25], [0.25, 0.5, 0.25, 0.25], [1.0, N, 0.25, 0.5], [0.5, 0.75, 0.5, 0.25]], 2),
                                   ('two iterations after an impossible cluster', [[N], [1.0], [2.5], [3.0]], 3, [[0.0, 0.0, 0.0, 0.0], [0.75, 0.5, 0.25, 0.5], [0.25, 0.5, 0.75, 0.5], [1.0, N, 0.25, 0.25], [1.0, 0.75, 0.75, 0.75]], 2),
                                   ('two iterations after an empty cluster', [[N], [1.0], [2.5], [3.0]], 3, [[0.125, 0.25, 0.25, 0.125], [0.75, 0.5, 0.25, 0.125], [0.125, 0.25, 0.5, 0.75], [1.0, N, 0.25, 0.5], [0.5, 0.75, 0.5, 0.25], [1.0, 0.5, 0.25, 0.125]], 2)):
        out.append(Task('h_steps', name='steps ' + name, elim=True, pts=pts, k=k, spec=spec, iterations=it))
    for tol in (0.0, 0.5, 2.0):
        out.append(Task('h_stop', name='stop tol=%s' % tol, elim=True, tol=tol, iterations=3))
    out.append(Task('h_gaussian1', name='density 1-D', cuts=False, n=2))
    for i, cov in enumerate(([[1.0, 0.0], [0.0, 2.0]], [[2.0, 0.5], [0.5, 1.0]], [[0.25, -0.1], [-0.1, 0.5]])):
        out.append(Task('h_gaussian2', name='density 2-D %d' % i, cuts=False, cov=cov))
    out.append(Task('h_initialize', name='random initialization', rng=True, pts=[[N], [1.0], [4.0]], k=2, kind='RANDOM_INITIALIZATION'))
    out.append(Task('h_initialize', name='random initialization 2-D', rng=True, pts=[[N, 0.0], [1.0, 2.0], [4.0, 1.0]], k=2, kind='RANDOM_INITIALIZATION'))
    return out
