from common import *
FUNCTIONS = ['pyclustering.cluster.fcm.fcm (process, __update_membership, __calculate_centers, __calculate_changes, __extract_clusters)', 'ccore fcm::process/update_membership/update_point_membership/update_centers/update_center/extract_clusters', 'fcm_interface.cpp']
BOUNDS = dict(quick='one iteration for 2..3 points in one or two dimensions and 1..3 centers with one symbolic coordinate of a point or a center in [-100,100] (coincidences of points and centers included), hyper parameter 2, 3 and 1.5; up to 4 iterations on fixed points with the tolerance symbolic in [0,4]; comparisons of a degree over 14 are followed both ways', thorough='two symbolic coordinates, four points')
FINDING = 'P16-ccore-coincident-point'
REACH = ['on-center', 'generic', 'stopped']


def setup():
    import pyclustering.cluster.fcm


def run(ctx, data, centers, m, tol, itermax):
    from pyclustering.cluster.fcm import fcm
    a = fcm(copy_points(data), copy_points(centers), m=m, tolerance=tol, itermax=itermax, ccore=ctx.cc)
    a.process()
    return [ints(c) for c in a.get_clusters()], [[x for x in c] for c in a.get_centers()], [[x for x in u] for u in a.get_membership()]


def membership(data, centers, U, m):
    """per point: u_ij = 1 / sum_k (|x_i - c_j| / |x_i - c_k|)^(2 / (m - 1)), 1 (shared) for the centers that coincide with x_i"""
    out = []
    for i, p in enumerate(data):
        fs = []
        u = [R(x) for x in U[i]]
        ds = [d2(p, c) for c in centers]
        on = [eq(d, 0) for d in ds]
        s = sum(u, Fraction(0))
        fs.append(near(s, 1, TOL))
        fs.append(all_([ge(x, 0) for x in u]))
        off = all_([not_(o) for o in on])
        # proportional to (1 / d)^(1 / (m - 1)); no division
        for j in range(len(ds)):
            for k in range(j):
                if m == 2:
                    a, b, t = u[j] * ds[j], u[k] * ds[k], ds[j] + ds[k]
                elif m == 3:
                    a, b, t = u[j] * u[j] * ds[j], u[k] * u[k] * ds[k], ds[j] + ds[k]
                else:
                    a, b, t = u[j] * ds[j] * ds[j], u[k] * ds[k] * ds[k], ds[j] * ds[j] + ds[k] * ds[k]
                fs.append(implies(off, near(a, b, TOL * 10 * (1 + t) if not isinstance(t, Fraction) else TOL * 10 * (1 + t))))
        for j in range(len(ds)):
            fs.append(implies(all_([not_(off), not_(on[j])]), near(u[j], 0)))
        fs.append(implies(not_(off), all_([implies(all_([on[j], on[k]]), near(u[j], u[k])) for j in range(len(ds)) for k in range(j)])))
        out.append(fs)
    return out


def listed(p, centers, u, m):
    """the finding: in the C++ core a point on a center has membership 1 there and shares another 1 among the other centers"""
    ds = [d2(p, c) for c in centers]
    on = [bool(d == 0) for d in ds]
    if not any(on):
        return False
    u = [R(x) for x in u]
    fs = [near(u[j], 1) for j in range(len(ds)) if on[j]]
    off = [j for j in range(len(ds)) if not on[j]]
    if off:
        fs.append(near(sum((u[j] for j in off), Fraction(0)), 1))
    for j in off:
        for k in off:
            if k < j:
                a, b = (u[j] * ds[j], u[k] * ds[k]) if m == 2 else (u[j] * u[j] * ds[j], u[k] * u[k] * ds[k]) if m == 3 else (u[j] * ds[j] * ds[j], u[k] * ds[k] * ds[k])
                fs.append(near(a, b, TOL * 10 * (1 + ds[j] + ds[k])))
    return all_(fs)


def means(data, old, centers, U, m):
    fs = []
    for j, c in enumerate(centers):
        us = [R(U[i][j]) for i in range(len(data))]
        ws = [u * u if m == 2 else u * u * u if m == 3 else u * core.sym_sqrt(u) if isinstance(u, SymReal) else Fraction(float(u) ** m) for u in us]
        tot = sum(ws, Fraction(0))
        for d in range(len(data[0])):
            v = R(c[d])
            num = sum((w * R(p[d]) for w, p in zip(ws, data)), Fraction(0))
            fs.append(near(v * tot, num, TOL * 10))
            fs.append(implies(eq(tot, 0), eq(v, R(old[j][d]))))
    return fs


def arg(data, centers, clusters, n):
    """the largest membership is the one of a nearest center"""
    lab = labels_of(clusters, n)
    return [le(d2(p, centers[lab[i]]), d2(p, c) + TOL) for i, p in enumerate(data) for c in centers]


def h_fcm(ctx, spec, cspec, m):
    """one iteration"""
    data, centers = mixed(ctx, spec), mixed(ctx, cspec)
    n, k = len(data), len(centers)
    clusters, cs, U = run(ctx, data, centers, m, 1000000.0, 1)
    ctx.obs('clusters', clusters)
    ctx.obs('membership', U)
    ctx.check(len(clusters) == len(cs) == k and partition(clusters, n, allow_empty=True), 'not every point is in exactly one cluster')
    ok = len(U) == n and all(len(u) == k for u in U) and all(isnum(x) for u in U for x in u) and all(isnum(x) for c in cs for x in c)
    ctx.check(ok, 'a membership or a center is missing or not a number')
    if not ok:
        return
    ctx.reach('on-center' if any(bool(d2(p, c) == 0) for p in data for c in centers) else 'generic')
    kn = [listed(p, centers, u, m) if ctx.cc else False for p, u in zip(data, U)]
    for i, fs in enumerate(membership(data, centers, U, m)):
        for f in fs:
            ctx.check(f, 'the memberships are not the documented function of the distances to the centers', known=(FINDING, kn[i]))
    for f in means(data, centers, cs, U, m):
        ctx.check(f, 'a center is not the mean of the points weighted by their memberships to the power m')
    for i, f in enumerate(arg(data, centers, clusters, n)):
        ctx.check(f, 'a point is not in the cluster of its largest membership', known=(FINDING, kn[i // k]))


def h_stop(ctx, data, centers, m, most):
    """with the tolerance symbolic: iterations are made until the centers change at most by the tolerance (Euclidean distance or its
    square), or the limit is reached; every iteration starts from the centers of the previous one"""
    data, centers = [list(map(float, p)) for p in data], [list(map(float, p)) for p in centers]
    runs, cur, change = [], centers, []
    for j in range(1, most + 1):
        r = run(ctx, data, centers, m, 0.0, j)
        cont = run(ctx, data, cur, m, 0.0, 1)
        ctx.check(r[0] == cont[0], 'an iteration does not continue from the centers of the previous one')
        ctx.check(all_([near(x, y) for u, v in zip(r[1] + r[2], cont[1] + cont[2]) for x, y in zip(u, v)]), 'an iteration does not continue from the centers of the previous one')
        change.append(max(d2(a, b) for a, b in zip(cur, r[1])))
        cur = [[float(R(x)) for x in c] for c in r[1]]
        runs.append(r)
    tol = ctx.real('tol', 0, 4)
    g = run(ctx, data, centers, m, tol, most)
    alts = []
    for sq in (True, False):
        ch = [c if sq else Fraction(float(c) ** 0.5) for c in change]
        for j in range(most):
            cond = [gt(ch[i], tol - TOL) for i in range(j)] + ([le(ch[j], tol + TOL)] if j < most - 1 else [])
            alts.append(all_(cond + [near(x, y) for u, v in zip(g[1] + g[2], runs[j][1] + runs[j][2]) for x, y in zip(u, v)]))
    ctx.check(any_(alts), 'the processing stops before the centers are stable within the tolerance, or goes on after that')
    ctx.reach('stopped')


def tasks(tier):
    o = (None,)
    out = []
    L = [([o, (0.,), (4.,)], [(1.,), (3.,)], 2), ([(0.,), (1.,), (4.,)], [o, (3.,)], 2), ([(0.,), (4.,)], [o, (3.,), (5.,)], 2),
         ([(None, 0.), (1., 2.), (4., 0.)], [(1., 2.), (3., 1.)], 2), ([o, (2.,)], [(1.,), (3.,)], 3), ([o, (2.,)], [(1.,), (3.,)], 1.5), ([(0.,), (1.,)], [o], 2)]
    T = [([(0,), (1,), (4,), (6,)], [(0,), (1,)], 2, 4), ([(0, 0), (1, 2), (4, 0), (5, 5)], [(1, 1), (3, 1)], 2, 3), ([(0,), (1,), (4,), (6,)], [(2,), (5,), (7,)], 3, 4)]
    if tier != 'quick':
        L += [([o, (0.,), (4.,)], [o, (3.,)], 2), ([(0.,), (1.,), (4.,), (6.,)], [o, (3.,), (5.,)], 2), ([(0.,), (1.,)], [o, (3.,)], 1.5), ([(0.,), (1.,), (4.,)], [o, o], 2), ([(0.,), o], [o, o], 2), ([o, (0.,), (4.,)], [(1.,), (3.,)], 3), ([o, o, (4.,)], [o, (3.,)], 2), ([o, (0.,), (4.,), (7.,)], [(1.,), (3.,)], 2)]
    for cc in (False, True):
        for spec, cspec, m in L if not cc or tier != 'quick' else [x for x in L if x[2] != 1.5]:
            out.append(Task('h_fcm', name='step%s n=%d k=%d dim=%d free=%d+%d m=%s' % (' cc' if cc else '', len(spec), len(cspec), len(spec[0]), sum(v is None for p in spec for v in p), sum(v is None for p in cspec for v in p), m), cc=cc, elim=True, maxdeg=14, spec=spec, cspec=cspec, m=m))
        for data, cs, m, most in T:
            out.append(Task('h_stop', name='stop%s n=%d k=%d m=%s' % (' cc' if cc else '', len(data), len(cs), m), cc=cc, data=data, centers=cs, m=m, most=most))
    return out
