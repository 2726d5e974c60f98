import math
from common import *
FUNCTIONS = ['pyclustering.nnet.sync.sync_network (phase equation, static simulation, normalization), sync_dynamic (ensembles, correlation and phase matrices, order parameters), order_estimator', 'pyclustering.nnet.syncpr.syncpr (train, phase equation, initial phases, patterns)', 'pyclustering.cluster.syncnet.syncnet (connections, weights, phase equation)',
             'ccore nnet::sync_network, sync_dynamic, sync_ordering, syncpr, clst::syncnet, sync_interface.cpp, syncpr_interface.cpp, syncnet_interface.cpp and their wrappers', 'pyclustering.nnet.hysteresis.hysteresis_dynamic.allocate_sync_ensembles']
BOUNDS = dict(quick='2..4 oscillators with symbolic phases in [0,2*pi], coupling in [-3,3] and frequencies; every structure; 1..2 steps of the FAST solver and one step of Runge-Kutta 4; 3..4 points of syncnet with one or two symbolic coordinates; sine and exponent are uninterpreted but for their bounds, monotony and, where a verdict needs it, their values; amounts of steps 1..60 with time 1..100', thorough='5 oscillators, 3 steps')
REACH = ['wrapped', 'two ensembles', 'across zero', 'connected', 'not connected', 'weights', 'refused']
PI2 = Fraction(2.0 * math.pi)


def setup():
    import pyclustering.nnet.sync, pyclustering.nnet.syncpr, pyclustering.cluster.syncnet, pyclustering.nnet.hysteresis


def linked(kind, n, i, j):
    if i == j:
        return False
    if kind == 'ALL_TO_ALL':
        return True
    return kind == 'LIST_BIDIR' and abs(i - j) == 1


def fun(name, x):
    x = R(x)
    return core.sym_fun(name, x) if isinstance(x, core.SymReal) else Fraction(getattr(math, name)(float(x)))


def sin(x):
    return fun('sin', x)


def exp(x):
    return fun('exp', x)


class draws:
    """random numbers handed out to the code"""
    def __init__(self, ctx, fixed=()):
        self.ctx, self.old, self.taken = ctx, ctx.rnd01, []

        def rnd01():
            k = len(self.taken)
            v = fixed[k] if k < len(fixed) and fixed[k] is not None else self.old()
            self.taken.append(v)
            return v
        ctx.rnd01 = rnd01


def state(ctx, net):
    """current phases of a network"""
    return [R(x) for x in net._phases]


def initial(ctx, net, d):
    """initial phases of a network whose phases and frequencies are drawn"""
    ph = [R(v) * PI2 for v in d.taken[0::2]]
    if ctx.cc:
        return ph
    ctx.check(len(net._phases) == len(ph) and all_([near(a, b) for a, b in zip(net._phases, ph)]), 'initial phases are not spread over the circle')
    return [R(x) for x in net._phases]      # the code rounds pi to eleven digits


def normal_f(x, expected):
    """x is the normalized phase of the expected one, at most four turns away"""
    return all_([ge(R(x), -TOL), le(R(x), PI2 + TOL), any_([near(R(x), expected + k * PI2) for k in range(-3, 4)])])


def h_step(ctx, n, kind, steps, wlim):
    """every step of the FAST solver moves every phase by its frequency and the coupled differences to its neighbors; collected states are the simulated ones"""
    from pyclustering.nnet.sync import sync_network
    from pyclustering.nnet import conn_type, solve_type, initial_type, conn_represent
    w = ctx.real('w', -wlim, wlim)
    f = ctx.real('f', 0, 1)
    d = draws(ctx)
    init = initial_type.RANDOM_GAUSSIAN
    if ctx.cc:
        net = sync_network(n, w, f, getattr(conn_type, kind), initial_phases=init, ccore=True)
    else:
        net = sync_network(n, w, f, getattr(conn_type, kind), ctx.pick('rep', [conn_represent.MATRIX, conn_represent.LIST]), init, False)
    ph = initial(ctx, net, d)
    fr = [R(v) * R(f) for v in d.taken[1::2]]
    ctx.check(len(ph) == n and len(fr) == n, 'not one initial phase and frequency per oscillator')
    for i in range(n):
        for j in range(n):
            ctx.check(bool(net.has_connection(i, j)) == linked(kind, n, i, j), 'connections are not those of the structure')
    collect = ctx.pick('collect', [True, False])
    time = 10
    dyn = net.simulate_static(steps, time, solve_type.FAST, collect)
    out, times = [[R(x) for x in s] for s in dyn.output], [R(t) for t in dyn.time]
    ctx.obs('times', times)
    m = steps + 1 if collect else 1
    ctx.check(len(out) == m and len(times) == m and len(dyn) == m, 'not one collected state per step')
    if len(out) != m:
        return
    ctx.check(all_([near(times[k], Fraction(time * k, steps) if collect else time) for k in range(m)]), 'wrong time of a collected state')
    if collect:
        ctx.check(all_([near(a, b) for a, b in zip(out[0], ph)]), 'the first collected state is not the initial one')
    cur = out[0] if collect else ph
    for k in range(1, steps + 1):
        nxt = []
        for i in range(n):
            s = Fraction(0)
            for j in range(n):
                if linked(kind, n, i, j):
                    s = s + sin(cur[j] - cur[i])
            nxt.append(cur[i] + fr[i] + s * R(w) * Fraction(1, n))
        if collect:
            got = out[k]
        elif k == steps:
            got = out[0]
        else:
            break   # without collected states only the last one is known
        ctx.check(all_([normal_f(g, e) for g, e in zip(got, nxt)]), 'a phase does not follow the phase equation')
        for g, e in zip(got, nxt):
            if e > PI2 + TOL or e < -TOL:
                ctx.reach('wrapped')
        cur = got


def network(ctx, n, phases):
    """a collected dynamic whose only state holds the given phases"""
    from pyclustering.nnet.sync import sync_dynamic
    return sync_dynamic([list(phases)], [0.0])


def cc_dynamic(ctx, n):
    """dynamic of the core; its first state is arbitrary"""
    from pyclustering.nnet.sync import sync_network
    from pyclustering.nnet import conn_type, solve_type, initial_type
    d = draws(ctx)
    net = sync_network(n, 0.0, 0.0, conn_type.ALL_TO_ALL, initial_phases=initial_type.RANDOM_GAUSSIAN, ccore=True)
    dyn = net.simulate_static(1, 1, solve_type.FAST, True)
    return dyn, [R(x) for x in dyn.output[0]], net


def get_dynamic(ctx, n):
    if ctx.cc:
        return cc_dynamic(ctx, n)
    ph = [ctx.real('p%d' % i, 0, 6) for i in range(n)]
    top = ctx.real('top', 0, Fraction(2832, 10000))
    ph[-1] = ph[-1] + top       # up to the full turn
    from pyclustering.nnet.sync import sync_network
    from pyclustering.nnet import conn_type
    net = sync_network(n, 0.0, 0.0, conn_type.ALL_TO_ALL, ccore=False)
    other = [1.0] * n
    from pyclustering.nnet.sync import sync_dynamic
    dyn = sync_dynamic([list(ph), other], [0.0, 1.0])
    return dyn, [R(x) for x in ph], net


def circle(a, b):
    """distance of phases; forks"""
    d = abs_(a - b)
    e = PI2 - d
    return e if e < d else d


def h_ensembles(ctx, n, use_indexes):
    """ensembles are a partition; an oscillator joins one that holds an oscillator within the tolerance, and opens one only when there is none"""
    dyn, ph, _ = get_dynamic(ctx, n)
    tol = ctx.real('tol', 0.01, 1)
    index = [10 * (n - i) for i in range(n)]
    e = dyn.allocate_sync_ensembles(tol, index if use_indexes else None, 0)
    e = [ints(c) for c in e]
    if use_indexes:
        ctx.check(sorted(x for c in e for x in c) == sorted(index), 'ensembles do not hold every given index once')
        if sorted(x for c in e for x in c) != sorted(index):
            return
        e = [[index.index(x) for x in c] for c in e]
    ctx.check(partition(e, n), 'ensembles are not a partition of the oscillators')
    if not partition(e, n):
        return
    t = R(tol)
    cut = lambda i, j: any_([lt(ph[i] - ph[j], t + TOL) if s else None for s in ()])
    for c in e:
        for k, i in enumerate(c):
            earlier = [j for j in range(n) if j < i]
            if k:
                mates = [j for j in c if j < i]
                ctx.check(any_([lt(circle(ph[i], ph[j]), t + TOL) for j in mates]), 'an oscillator is in an ensemble in which no phase is close to its phase')
            else:
                ctx.check(all_([ge(circle(ph[i], ph[j]), t - TOL) for j in earlier]), 'an oscillator opens an ensemble although its phase is close to another one')
    if len(e) > 1:
        ctx.reach('two ensembles')
    for c in e:
        for i in c:
            for j in c:
                if ph[i] - ph[j] > 3:
                    ctx.reach('across zero')


def h_reports(ctx, n):
    """correlation matrix, phase matrix and order parameters of a state"""
    dyn, ph, net = get_dynamic(ctx, n)
    m = dyn.allocate_correlation_matrix(0)
    ctx.check(len(m) == n and all(len(r) == n for r in m), 'size of the correlation matrix')
    for i in range(n):
        for j in range(n):
            s = sin(ph[i] - ph[j]) if i != j else Fraction(0)
            v = R(m[i][j])
            if i < j:
                ctx.check(any_([near(v, s), near(v, -s)]) , 'correlation of two oscillators is not the absolute sine of the difference of their phases')
            ctx.check(ge(v, -TOL), 'a correlation is negative')
            if i == j:
                ctx.check(near(v, 0), 'an oscillator is not correlated with itself')
    g = R(dyn.calculate_order_parameter(0, 1)[0])
    s = Fraction(0)
    for p in ph:
        s = s + p
    top = exp(s * Fraction(1, n))
    low = Fraction(0)
    for p in ph:
        low = low + exp(p)
    ctx.check(near(g * low, top * n, Fraction(1, 1000)), 'global order parameter is not the documented ratio')
    lo = R(dyn.calculate_local_order_parameter(net, 0, 1)[0])
    s = Fraction(0)
    for i in range(n):
        for j in range(n):
            if i != j:
                s = s + exp(-abs_(ph[j] - ph[i]))
    ctx.check(near(lo * (n * (n - 1)), s), 'local order parameter is not the mean closeness of neighboring phases')
    ctx.check(all_([le(lo, 1 + TOL), gt(lo, -TOL)]), 'local order parameter is not in [0, 1]')


def h_same_phase(ctx, n):
    """oscillators of equal phases are completely ordered"""
    from pyclustering.nnet.sync import order_estimator
    p = ctx.real('p', 0, 6)
    g = R(order_estimator.calculate_sync_order([p] * n))
    ctx.check(near(g, 1), 'equal phases are not completely ordered')


def h_phase_matrix(ctx, w, h):
    from pyclustering.nnet.sync import sync_dynamic
    ph = [ctx.real('p%d' % i, 0, 6) for i in range(w * h)]
    d = sync_dynamic([ph], [0.0])
    m = d.allocate_phase_matrix(w, h)
    ctx.check(len(m) == h and all(len(r) == w for r in m) and all_([eq(R(m[i][j]), R(ph[i * w + j])) for i in range(h) for j in range(w)]), 'phase matrix does not hold the phases row by row')
    try:
        d.allocate_phase_matrix(w + 1, h)
        ctx.check(False, 'a phase matrix of a wrong size is not refused')
    except NameError:
        pass


def h_steps_amount(ctx, smax):
    """static simulation performs exactly the requested amount of steps"""
    from pyclustering.nnet import conn_type, solve_type, initial_type
    steps = ctx.int('steps', 1, smax)
    time = ctx.pick('time', [1, 3, 10, 50, 100])
    kind = ctx.pick('kind', ['sync', 'syncpr'])
    if kind == 'sync':
        from pyclustering.nnet.sync import sync_network
        net = sync_network(2, 0, 0, conn_type.NONE, initial_phases=initial_type.EQUIPARTITION, ccore=ctx.cc)
        dyn = net.simulate_static(int(steps), time, solve_type.FAST, True)
    else:
        from pyclustering.nnet.syncpr import syncpr
        net = syncpr(2, 0.0, 0.0, ctx.cc)
        dyn = net.simulate_static(int(steps), time, [1, -1], solve_type.FAST, True)
    ctx.check(len(dyn.output) == int(steps) + 1 and len(dyn.time) == int(steps) + 1, 'not exactly the requested amount of steps is simulated')


def h_syncpr(ctx, n, patterns, solver):
    """Hebbian coupling and one step from a pattern"""
    from pyclustering.nnet.syncpr import syncpr
    from pyclustering.nnet import solve_type
    a, b = ctx.real('a', -2, 2), ctx.real('b', -2, 2)
    ps = [[1 if ctx.choose(2) else -1 for _ in range(n)] for _ in range(patterns)]
    net = syncpr(n, a, b, ctx.cc)
    net.train(ps)
    start = [1 if ctx.choose(2) else -1 for _ in range(n)]
    c = [[Fraction(sum(p[i] * p[j] for p in ps), n) if i != j else Fraction(0) for j in range(n)] for i in range(n)]
    if not ctx.cc:
        ctx.check(all_([near(R(net._coupling[i][j]), c[i][j]) for i in range(n) for j in range(n)]), 'coupling is not the Hebbian sum')
    dyn = net.simulate_static(1, 1, start, getattr(solve_type, solver), True)
    out = [[R(x) for x in s] for s in dyn.output]
    ctx.check(len(out) == 2, 'not one collected state per step')
    if len(out) != 2:
        return
    ph = [Fraction(0) if v > 0 else Fraction(math.pi / 2) for v in start]
    ctx.check(all_([near(x, p) for x, p in zip(out[0], ph)]), 'initial phases do not encode the pattern')

    def rate(i, teta):
        s = Fraction(0)
        for k in range(n):
            if k != i:
                e = ph[k] - teta
                s = s + sin(e) * c[i][k] + (R(a) * sin(2 * e) - R(b) * sin(3 * e)) * Fraction(1, n)
        return s
    if solver == 'FAST':
        ctx.check(all_([normal_f(out[1][i], ph[i] + rate(i, ph[i])) for i in range(n)]), 'a phase does not follow the phase equation of syncpr')
    ctx.check(all_([all_([ge(x, -TOL), le(x, PI2 + TOL)]) for x in out[1]]), 'a phase is not normalized')


def h_patterns(ctx, n):
    """patterns that are not vectors of +1 and -1 of the size of the network are refused"""
    from pyclustering.nnet.syncpr import syncpr
    net = syncpr(n, 0.1, 0.1, ctx.cc)
    p = [ctx.int('v%d' % i, -2, 2) for i in range(n)]
    size = ctx.pick('size', [n, n - 1, n + 1])
    p = (p + [1])[:size]
    try:
        net.train([p])
        ok = True
    except NameError:
        ok = False
    if size != n:
        ctx.check(not ok, 'a pattern of a wrong size is accepted')
    elif ok:
        ctx.check(all_([any_([eq(R(x), 1), eq(R(x), -1)]) for x in p]), 'a pattern with a value other than +1 and -1 is accepted')
    else:
        ctx.reach('refused')
        ctx.check(any_([all_([ne(R(x), 1), ne(R(x), -1)]) for x in p]), 'a correct pattern is refused')


def h_syncnet(ctx, spec, radius, weights, fixed=()):
    """oscillators of points within the radius are connected; phases move by the mean of the (weighted) coupled differences to the neighbors"""
    from pyclustering.cluster.syncnet import syncnet
    from pyclustering.nnet import solve_type, initial_type
    data = mixed(ctx, spec, -10, 10)
    n = len(data)
    d = draws(ctx, fixed)
    net = syncnet(copy_points(data), radius, initial_phases=initial_type.RANDOM_GAUSSIAN, enable_conn_weight=weights, ccore=ctx.cc)
    ph = initial(ctx, net, d)
    r2 = Fraction(radius) ** 2
    link = [[False] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            c = bool(net.has_connection(i, j))
            link[i][j] = c
            ctx.reach('connected' if c else 'not connected')
            if i == j:
                ctx.check(not c, 'an oscillator is connected with itself')
            else:
                ctx.check(le(d2(data[i], data[j]), r2 + TOL) if c else ge(d2(data[i], data[j]), r2 - TOL), 'connection of two oscillators is not that of points within the radius')
    if any(link[i][j] != link[j][i] for i in range(n) for j in range(n)):
        return ctx.check(False, 'a connection is not symmetric')
    dyn = net.simulate_static(1, 1, solve_type.FAST, True)
    out = [[R(x) for x in s] for s in dyn.output]
    ctx.check(len(out) == 2 and all_([near(a, b) for a, b in zip(out[0], ph)]), 'the first state is not the initial one')
    ph = out[0]
    wt = [[Fraction(1)] * n for _ in range(n)]
    if weights:
        ctx.reach('weights')
        dm = [[d2(a, b) for b in data] for a in data]
        if not ctx.cc:
            dm = [[dist('euc', data[i], data[j]) if i != j else Fraction(0) for j in range(n)] for i in range(n)]
        lo = hi = None
        for i in range(n):
            for j in range(i):
                if lo is None or dm[i][j] < lo:
                    lo = dm[i][j]
                if hi is None or dm[i][j] > hi:
                    hi = dm[i][j]
        if hi - lo <= Fraction(1, 100):
            return          # no scale to speak of
        wt = [[(dm[i][j] - lo) for j in range(n)] for i in range(n)]
        for i in range(n):
            s, k = Fraction(0), 0
            for j in range(n):
                if link[i][j]:
                    s = s + sin(ph[j] - ph[i]) * wt[i][j]
                    k += 1
            # (next - phase) * k * (hi - lo) = s, up to whole turns
            sc = (hi - lo) * max(k, 1)
            ctx.check(any_([near((out[1][i] - ph[i] + t * PI2) * sc, s, Fraction(1, 10 ** 4)) for t in (-1, 0, 1)]), 'a phase does not follow the weighted phase equation')
        return
    for i in range(n):
        s, k = Fraction(0), 0
        for j in range(n):
            if link[i][j]:
                s = s + sin(ph[j] - ph[i])
                k += 1
        ctx.check(normal_f(out[1][i], ph[i] + s * Fraction(1, max(k, 1))), 'a phase does not follow the phase equation of syncnet')


def h_initial(ctx, n):
    """equipartition spreads the initial phases evenly"""
    from pyclustering.cluster.syncnet import syncnet
    from pyclustering.nnet.sync import sync_network
    from pyclustering.nnet import solve_type, initial_type, conn_type
    d = draws(ctx)
    points = bool(ctx.choose(2))
    if points:
        net = syncnet([[float(i)] for i in range(n)], 0.5, initial_phases=initial_type.EQUIPARTITION, ccore=ctx.cc)
    else:
        net = sync_network(n, 1.0, 0.0, conn_type.NONE, initial_phases=initial_type.EQUIPARTITION, ccore=ctx.cc)
    out = net.simulate_static(1, 1, solve_type.FAST, True).output[0]
    # the core draws the phases of syncnet whatever is requested
    drawn = points and ctx.cc and len(d.taken) >= 2 * n
    ctx.check(all_([near(x, Fraction(math.pi) * i / n) for i, x in enumerate(out)]), 'initial phases are not the requested equipartition',
              known=('P29-ccore-initial-phases', all_([near(x, PI2 * R(v)) for x, v in zip(out, d.taken[0::2])]) if drawn else False))


def h_hysteresis(ctx, n, steps, window):
    """oscillators whose amplitudes differ by less than the tolerance in the last steps share an ensemble"""
    from pyclustering.nnet.hysteresis import hysteresis_dynamic
    a = [[ctx.real('a%d_%d' % (t, i), -4, 4) for i in range(n)] for t in range(steps)]
    tol = ctx.real('tol', 0.1, 1)
    e = [ints(c) for c in hysteresis_dynamic(a, list(range(steps))).allocate_sync_ensembles(tol, window)]
    ctx.obs('ensembles', e)
    ctx.check(partition(e, n), 'ensembles are not a partition of the oscillators')
    if not partition(e, n):
        return
    k = min(window, steps)

    def close(i, j):
        return all_([all_([lt(R(a[t][i]) - R(a[t][j]), R(tol) + TOL), lt(R(a[t][j]) - R(a[t][i]), R(tol) + TOL)]) for t in range(steps - k, steps)])

    def far(i, j):
        return any_([any_([ge(R(a[t][i]) - R(a[t][j]), R(tol) - TOL), ge(R(a[t][j]) - R(a[t][i]), R(tol) - TOL)]) for t in range(steps - k, steps)])
    for x, c in enumerate(e):
        for i in c[1:]:
            ctx.check(close(i, c[0]), 'an oscillator is in an ensemble of another amplitude')
        for y in range(x):
            if e[y][0] < c[0]:
                ctx.check(far(c[0], e[y][0]), 'an oscillator opens an ensemble although it is close to another one')


def tasks(tier):
    q = tier == 'quick'
    out = []
    for cc in (False, True):
        s = '[cc]' if cc else ''
        for n, kind, steps, w in ((2, 'ALL_TO_ALL', 2, 3), (3, 'ALL_TO_ALL', 1, 1), (3, 'LIST_BIDIR', 1, 1), (3, 'NONE', 2, 1)) + (() if q else ((3, 'ALL_TO_ALL', 2, 1), (4, 'LIST_BIDIR', 1, 1))):
            out.append(Task('h_step', name='step%s n=%d %s steps=%d' % (s, n, kind, steps), cc=cc, rng=True, n=n, kind=kind, steps=steps, wlim=w))
        for n in (2, 3) + (() if q else (4,)):
            out.append(Task('h_ensembles', name='ensembles%s n=%d' % (s, n), cc=cc, rng=cc, n=n, use_indexes=False))
            out.append(Task('h_ensembles', name='ensembles%s n=%d indexes' % (s, n), cc=cc, rng=cc, n=n, use_indexes=True))
        for n in (2, 3):
            out.append(Task('h_reports', name='reports%s n=%d' % (s, n), cc=cc, rng=cc, n=n))
        out.append(Task('h_steps_amount', name='steps%s' % s, cc=cc, rng=True, smax=60 if q else 200))
        out.append(Task('h_syncpr', name='syncpr%s' % s, cc=cc, rng=True, n=3, patterns=2, solver='FAST'))
        out.append(Task('h_patterns', name='patterns%s' % s, cc=cc, rng=True, n=2))
        for spec, r, w, fixed in (([[None], [1.0], [2.5]], 1.5, False, ()), ([[None], [1.0], [2.5]], 1.5, True, ()), ([[None, 0.0], [1.0, 1.0], [None, 3.0]], 2.0, False, ()),
                                  ([[None, 0.0], [1.0, 1.0], [0.0, 3.0]], 2.5, True, (None, 0.0, 0.3, 0.0, 0.9, 0.0))):
            out.append(Task('h_syncnet', name='syncnet%s %d-D weights=%s' % (s, len(spec[0]), w), cc=cc, rng=True, spec=spec, radius=r, weights=w, fixed=fixed))
        out.append(Task('h_initial', name='initial%s' % s, cc=cc, rng=True, n=5))
    out.append(Task('h_same_phase', name='equal phases', n=3))
    out.append(Task('h_phase_matrix', name='phase matrix', w=3, h=2))
    out += [Task('h_hysteresis', name='hysteresis n=%d steps=%d window=%d' % a, n=a[0], steps=a[1], window=a[2]) for a in ((3, 1, 1), (4, 1, 1), (3, 2, 2), (3, 2, 5))]
    return out
