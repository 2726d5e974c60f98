import math
from common import *
FUNCTIONS = ['pyclustering.nnet.cnn (cnn_network, cnn_dynamic)', 'pyclustering.nnet.hysteresis.hysteresis_network (simulate, simulate_static)', 'pyclustering.nnet.legion.legion_network (Python)', 'pyclustering.nnet.hhn.hhn_network (Python)', 'pyclustering.utils.allocate_sync_ensembles']
BOUNDS = dict(quick='2..4 neurons; CNN: symbolic initial outputs or one symbolic coordinate of the stimulus, 1..3 steps, both structures; hysteresis: symbolic states, weights in {-4,-1,2}, 1..2 steps; LEGION: symbolic initial states, noise and strength of the stimulus, 1..2 steps, with and without potential; HHN: symbolic stimulus and noise, 1..2 steps; ensembles of 2..3 oscillators with 4..5 symbolic amplitudes. odeint is replaced by an Euler step over the whole grid it is given; exp and tanh are uninterpreted but for their bounds, monotony and values a verdict needs. The core (which integrates by Runge-Kutta, see P31) and fsync (complex numbers) are outside', thorough='one more step')
REACH = ['all to all', 'delaunay', 'switched', 'coupled', 'inhibited', 'pulse', 'two ensembles', 'no oscillation']


def setup():
    import pyclustering.nnet.cnn, pyclustering.nnet.hysteresis, pyclustering.nnet.legion, pyclustering.nnet.hhn


def fun(name, x):
    x = R(x)
    return core.sym_fun(name, x) if isinstance(x, core.SymReal) else Fraction(getattr(math, name)(float(x)))


def draws(ctx, fixed=()):
    old, taken = ctx.rnd01, []

    def rnd01():
        k = len(taken)
        v = fixed[k] if k < len(fixed) and fixed[k] is not None else old()
        taken.append(v)
        return v
    ctx.rnd01 = rnd01
    return taken


class euler:
    """stands for odeint of a module: one explicit step over the whole grid; the function is evaluated at both ends, as solvers do"""
    def __init__(self, module):
        if not hasattr(module, 'odeint'):
            raise core.Unsupported('%s no longer integrates by odeint' % module.__name__)
        self.module, self.grids = module, []

    def __enter__(self):
        self.old, self.module.odeint = self.module.odeint, self.step
        return self

    def __exit__(self, *_):
        self.module.odeint = self.old

    def step(self, f, y0, t, args=(), **_):
        import numpy
        many = isinstance(y0, (list, tuple)) or hasattr(y0, '__len__')
        vector = lambda v: list(v) if many else numpy.array(v, dtype=object)     # a single variable comes as an array
        y = list(y0) if many else [y0]
        t = [float(v) for v in t]
        self.grids.append((t[0], t[-1]))
        d = f(vector(y), t[0], *args)
        d = list(d) if isinstance(d, (list, tuple)) or hasattr(d, '__len__') else [d]
        h = Fraction(t[-1]) - Fraction(t[0])
        n = [a + h * b for a, b in zip(y, d)]
        f(vector(n), t[-1], *args)
        return [list(n) for _ in t]


def h_cnn(ctx, data, kind, steps, symbolic, neighbors):
    """every output is the average of the map of the other outputs weighted by the closeness of the stimulus"""
    from pyclustering.nnet.cnn import cnn_network, type_conn
    n = len(data)
    stim = [[float(v) for v in p] for p in data]
    if symbolic:
        stim[0][0] = ctx.real('s', -3, 3)
        d = draws(ctx, [0.1 + 0.2 * i for i in range(n)])
    else:
        d = draws(ctx)
    net = cnn_network(n, getattr(type_conn, kind), neighbors)
    init = [R(v) for v in d[:n]]
    dyn = net.simulate(steps, [list(p) for p in stim])
    out = [[R(v) for v in s] for s in dyn.output]
    ctx.check(len(out) == steps and [int(t) for t in dyn.time] == list(range(steps)), 'there is not one output per step')
    ctx.check(all_([near(a, b) for a, b in zip(out[0], init)]), 'the first output is not the initial one')
    link = [[i != j for j in range(n)] for i in range(n)]
    if kind == 'TRIANGULATION_DELAUNAY':
        ctx.reach('delaunay')
        from scipy.spatial import Delaunay
        import numpy
        link = [[False] * n for _ in range(n)]
        for tri in Delaunay(numpy.array([[float(v) for v in p] for p in stim])).simplices:
            for a in tri:
                for b in tri:
                    if a != b:
                        link[int(a)][int(b)] = True
    else:
        ctx.reach('all to all')
    dd = [[d2(stim[i], stim[j]) for j in range(n)] for i in range(n)]
    if symbolic:
        # weights are positive: an output is between the least and the greatest mapped output; with equal distances it is their mean
        for t in range(1, steps):
            f = [1 - 2 * v * v for v in out[t - 1]]
            for i in range(n):
                o = [f[j] for j in range(n) if j != i]
                ctx.check(all_([any_([ge(out[t][i], v - TOL) for v in o]), any_([le(out[t][i], v + TOL) for v in o])]), 'an output is not an average of the mapped outputs of the others')
        for i in range(n):
            js = [j for j in range(n) if j != i]
            if steps > 1 and all(dd[i][j] == dd[i][js[0]] for j in js):
                f = [1 - 2 * v * v for v in out[0]]
                ctx.check(near(out[1][i], sum(f[j] for j in js) * Fraction(1, len(js))), 'equally distant neurons have different weights')
        # closer neurons weigh more: three neurons, the output is nearer to the mapped output of the closer one
        if n == 3 and steps > 1:
            f = [1 - 2 * v * v for v in out[0]]
            for i in range(n):
                j, k = [x for x in range(n) if x != i]
                if dd[i][j] + Fraction(1, 10) < dd[i][k]:
                    m = (f[j] + f[k]) * Fraction(1, 2)
                    ctx.check(any_([all_([ge(out[1][i], m - TOL), ge(f[j], f[k])]), all_([le(out[1][i], m + TOL), le(f[j], f[k])])]), 'a closer neuron does not weigh more')
        return
    # average distance to the closest neighbors
    total = 0.0
    for i in range(n):
        total += sum(sorted(math.sqrt(float(dd[i][j])) for j in range(n) if j != i)[:neighbors])
    avg = total / (neighbors * n)
    w = [[math.exp(-float(dd[i][j]) / (2.0 * avg)) if link[i][j] else 0.0 for j in range(n)] for i in range(n)]
    for t in range(1, steps):
        f = [1 - 2 * v * v for v in out[t - 1]]
        for i in range(n):
            e = sum((Fraction(w[i][j]) * f[j] for j in range(n)), Fraction(0)) * (1 / Fraction(sum(w[i])))
            ctx.check(near(out[t][i], e, Fraction(1, 10 ** 6)), 'an output is not the weighted average of the mapped outputs of its neighbors')


def h_cnn_ensembles(ctx, n, steps):
    """ensembles are neurons with the same signs of outputs in the last steps"""
    from pyclustering.nnet.cnn import cnn_dynamic
    out = [[ctx.real('o%d_%d' % (t, i), -1, 1) for i in range(n)] for t in range(steps)]
    dyn = cnn_dynamic([list(s) for s in out], list(range(steps)))
    last = ctx.pick('last', list(range(1, steps + 2)))
    matrix = dyn.allocate_observation_matrix()
    signs = [[1.0 if v > 0 else 0.0 for v in s] for s in out]
    ctx.check(len(dyn) == steps and [[float(v) for v in s] for s in matrix] == signs, 'the observation matrix is not that of positive outputs')
    ens = dyn.allocate_sync_ensembles(last)
    g = {}
    for i in range(n):
        g.setdefault(tuple(s[i] for s in signs[-last:]), []).append(i)
    if len(g) > 1:
        ctx.reach('two ensembles')
    ctx.check(sorted(sorted(e) for e in ens) == sorted(g.values()), 'ensembles are not the neurons with equal patterns')


def structure(kind, n, i, j):
    return i != j and (kind == 'ALL_TO_ALL' or (kind == 'LIST_BIDIR' and abs(i - j) == 1))


def h_hysteresis(ctx, n, kind, steps, time, own, neigh, bounds):
    """states follow x' = -x + weighted outputs; an output switches when its state leaves [-1, 1]"""
    import pyclustering.nnet.hysteresis as module
    from pyclustering.nnet import conn_type
    net = module.hysteresis_network(n, own, neigh, getattr(conn_type, kind))
    x = [ctx.real('x%d' % i, *bounds) if i < 2 else 1.6 for i in range(n)]
    o = [ctx.pick('o%d' % i, [-1, 1]) for i in range(n)]
    net.states, net.outputs = x, o
    collect = ctx.pick('collect', [True, False])
    with euler(module) as e:
        dyn = net.simulate_static(steps, time, collect_dynamic=collect)
    out = [[R(v) for v in s] for s in dyn.output]
    want = [[R(v) for v in x]]
    h = Fraction(time) / steps
    for s in range(steps):
        p = want[-1]
        nx = []
        for i in range(n):
            impact = own * o[i] + sum(neigh * o[j] for j in range(n) if structure(kind, n, i, j))
            nx.append(p[i] + h * (impact - p[i]))
        no = list(o)
        for i in range(n):
            for v in (p[i], nx[i]):
                if abs_(abs_(v) - 1) <= TOL * 10:
                    return      # rounding decides
                if v > 1:
                    no[i] = 1
                elif v < -1:
                    no[i] = -1
        if no != list(o):
            ctx.reach('switched')
        o = no
        want.append(nx)
    if not collect:
        want = want[-1:]
    ctx.check(len(out) == len(want) and len(dyn.time) == len(want), 'there is not one state per step')
    ctx.check(all_([near(a, b) for s, w in zip(out, want) for a, b in zip(s, w)]), 'states do not follow the equation of hysteresis neurons')
    ctx.check(list(net.outputs) == list(o), 'outputs are not those of the states')


def h_legion(ctx, n, kind, steps, time, potential, sym):
    """excitatory, inhibitory and potential variables and the global inhibitor follow the equations of LEGION"""
    import pyclustering.nnet.legion as module
    from pyclustering.nnet import conn_type
    p = module.legion_parameters()
    p.ENABLE_POTENTIONAL = potential
    p.teta_x = 0.3
    p.betta = 0.5
    if 'I' in sym:
        p.I = ctx.real('I', 0.1, 2)
    p.teta = ctx.pick('teta', [0.9, 1.9]) if potential else p.teta
    p.teta_zx = ctx.pick('teta_zx', [0.1, 5.0])
    fixed = [None if 'x' in sym and i == 0 else 0.2 + 0.25 * i for i in range(n)] + [None if 'noise' in sym and i == 0 else 0.5 for i in range(n)] + [0.25] * (n * steps)
    d = draws(ctx, fixed)
    net = module.legion_network(n, p, getattr(conn_type, kind), ccore=False)
    x = [R(v) for v in d[:n]]
    ro = Fraction(p.ro)
    noise = [R(v) * ro for v in d[n:2 * n]]
    stim = [ctx.pick('s%d' % i, [0, 1]) for i in range(n)]
    collect = ctx.pick('collect', [True, False])
    with euler(module):
        dyn = net.simulate(steps, time, [s * 3 for s in stim], collect_dynamic=collect)
    h = Fraction(time) / steps
    y, q, S, z = [Fraction(0)] * n, [Fraction(0)] * n, [Fraction(0)] * n, Fraction(0)
    F = Fraction
    rows = []
    for s in range(steps):
        t = h * s
        nx, ny, nq, nS = [], [], [], []
        for i in range(n):
            nb = [j for j in range(n) if structure(kind, n, i, j)]
            I = R(p.I) if stim[i] else F(0)
            if potential:
                a = q[i] + F(math.exp(-p.alpha * float(t))) - F(p.teta)
                I = I if a > 0 else F(0)
            nx.append(x[i] + h * (3 * x[i] - x[i] * x[i] * x[i] + 2 - y[i] + I + S[i] + noise[i]))
            ny.append(y[i] + h * F(p.eps) * (F(p.gamma) * (1 + fun('tanh', x[i] * (1 / F(p.betta)))) - y[i]))
            above = [j for j in nb if x[j] - F(p.teta_x) > 0]
            pot = F(p.T) * len(above)
            nq.append(q[i] + h * ((F(p.lamda) * (1 - q[i]) if pot - F(p.teta_p) > 0 else 0) - F(p.mu) * q[i]))
            c = F(0)
            excited = [j for j in nb if stim[j]]
            if stim[i] and excited:
                c = F(p.Wt) * F(1, len(excited)) * len(above)
                if above:
                    ctx.reach('coupled')
            if z - F(p.teta_xz) > 0:
                ctx.reach('inhibited')
                c = c - F(p.Wz)
            nS.append(c)
        sigma = F(0)
        for v in x:
            if v > F(p.teta_zx):
                sigma = F(1)
                break
        # the inhibitor follows the states before the step
        z = z + h * F(p.fi) * (sigma - z)
        x, y, q, S = nx, ny, nq, nS
        noise = [R(v) * ro for v in d[2 * n + s * n:2 * n + (s + 1) * n]]
        rows.append((x, z))
    if collect:
        ctx.check(len(dyn.output) == steps and len(dyn.time) == steps and len(dyn.inhibitor) == steps, 'there is not one state per step')
        if len(dyn.output) == steps:
            ctx.check(all_([near(R(a), b) for o, (w, _) in zip(dyn.output, rows) for a, b in zip(o, w)]), 'excitatory variables do not follow the equation of LEGION')
            ctx.check(all_([near(R(a), b) for a, (_, b) in zip(dyn.inhibitor, rows)]), 'the global inhibitor does not follow its equation')
    else:
        out = dyn.output
        if len(out) == 1 and hasattr(out[0], '__len__'):
            out = out[0]
        ctx.check(len(out) == n and all_([near(R(a), b) for a, b in zip(out, rows[-1][0])]), 'the last state is not that of the last step')


def h_hhn(ctx, n, steps, time, sym, jump):
    """membrane potentials follow the Hodgkin-Huxley equations of the two-layer network, pulses are remembered by their times"""
    import pyclustering.nnet.hhn as module
    d = draws(ctx, [0.75] + [None if sym == 'noise' and i == 0 else 0.5 + 0.1 * i for i in range(n)] + [0.5] * (n * steps))
    p = module.hhn_parameters()
    p.Icn1, p.Icn2 = jump[0], jump[1]
    p.w2, p.w1 = 0.5, 0.25
    p.deltah = 1.0
    p.eps = 4.0
    stim = [ctx.real('I%d' % i, -20, 20) if sym == 'stimulus' and i == 0 else 5.0 * i + jump[2] for i in range(n)]
    first = len(d)
    net = module.hhn_network(n, stim, p, ccore=False)
    F = Fraction
    noise = [R(v) * 2 - 1 for v in d[first:first + n]]
    with euler(module):
        t_, per, cen = net.simulate(steps, time)
    h = F(time) / steps
    P = lambda a: R(getattr(p, a))
    state = [[F(0)] * 4 for _ in range(n + 2)]
    pulses, active = [[] for _ in range(n + 2)], [False] * (n + 2)
    w3, counter, since = [F(0)] * n, [F(0)] * n, [F(0)] * n
    alfa = lambda dt, a, b: F(a) * dt * F(math.exp(-b * float(dt)))
    ctx.check(len(t_) == len(per) == len(cen) == steps + 1, 'there is not one state per step')
    ctx.check(all(abs(float(t_[k]) - float(h * k)) < 1e-9 for k in range(steps + 1)), 'times of states are not those of the steps')
    for s in range(steps):
        t = h * s
        nxt = []
        for i in range(n + 2):
            v, m, hh, k = state[i]
            ion = P('gNa') * m * m * m * hh * (v - F(p.vNa)) + P('gK') * k * k * k * k * (v - F(p.vK)) + P('gL') * (v - F(p.vL))
            if i < n:
                ext_ = R(stim[i]) * noise[i]
                m1 = sum((alfa(t - x, p.alfa_inhibitory, p.betta_inhibitory) for x in pulses[n]), F(0))
                m2 = sum((alfa(t - x, p.alfa_inhibitory, p.betta_inhibitory) for x in pulses[n + 1]), F(0))
                syn = F(p.w2) * (v - F(p.Vsyninh)) * m1 + w3[i] * (v - F(p.Vsyninh)) * m2
            elif i == n:
                ext_ = F(p.Icn1)
                m1 = sum((alfa(t - x, p.alfa_excitatory, p.betta_excitatory) for q in pulses[:n] for x in q), F(0))
                syn = F(p.w1) * (v - F(p.Vsynexc)) * m1
            else:
                ext_, syn = F(p.Icn2), F(0)
            u = v - F(p.vRest)
            rates = []
            e = lambda x: fun('exp', x)
            am = (F(2.5) - u * F(1, 10)) / (e(F(2.5) - u * F(1, 10)) - 1)
            ah = F(7, 100) * e(-u * F(1, 20))
            an = (F(1, 10) - u * F(1, 100)) / (e(1 - u * F(1, 10)) - 1)
            bm, bh, bn = 4 * e(-u * F(1, 18)), 1 / (e(3 - u * F(1, 10)) + 1), F(1, 8) * e(-u * F(1, 80))
            nxt.append([v + h * (ext_ - ion - syn), m + h * (am * (1 - m) - bm * m), hh + h * (ah * (1 - hh) - bh * hh), k + h * (an * (1 - k) - bn * k)])
        state = nxt
        t = h * (s + 1)
        got = [R(v) for v in per[s + 1]] + [R(v) for v in cen[s + 1]]
        scale = [near(a, b[0], Fraction(1, 10 ** 6)) for a, b in zip(got, state)]
        ctx.check(len(got) == n + 2 and all_(scale), 'membrane potentials do not follow their equations')
        noise = [1 + F(1, 100) * (R(v) * 2 - 1) for v in d[first + n + s * n:first + n + (s + 1) * n]]
        for i in range(n + 2):
            v = state[i][0]
            if not active[i]:
                if v >= 0:
                    ctx.reach('pulse')
                    active[i] = True
                    pulses[i].append(t)
            elif v < 0:
                active[i] = False
            if i < n:
                if w3[i] == 0:
                    if v > F(p.threshold):
                        counter[i] += h
                        if counter[i] >= 1 / F(p.eps):
                            w3[i], since[i] = F(p.w3), t
                elif not (since[i] < t and t < since[i] + F(p.deltah)):
                    w3[i], counter[i] = F(0), F(0)


def h_oscillations(ctx, n, length, tolerance, fixed):
    """ensembles are oscillators whose last finished oscillations are at the same time"""
    from pyclustering.utils import allocate_sync_ensembles
    dyn = [[ctx.real('a%d_%d' % (t, i), -2, 2) if i < n - fixed else [0.0, 2.0, 2.0, 0.0, 0.0][t % 5] for i in range(n)] for t in range(length)]
    ignore = ctx.pick('ignore', [None, [1]])
    ctx.assume(all_([any_([ge(R(v), 1 + TOL * 10), le(R(v), 1 - TOL * 10)]) for s in dyn for v in s]))
    ens = allocate_sync_ensembles([list(s) for s in dyn], tolerance, 1.0, ignore)
    desc = {}
    for i in range(n):
        if ignore and i in ignore:
            continue
        on = [bool(dyn[t][i] > 1) for t in range(length)]
        end = length - 1
        while end > 0 and on[end]:
            end -= 1          # an oscillation that is not finished
        if end == 0 and on[length - 1]:
            ctx.reach('no oscillation')
            continue
        last = [t for t in range(1, end + 1) if on[t]]
        if not last:
            ctx.reach('no oscillation')
            continue
        stop = last[-1]
        start = stop
        while start > 0 and on[start]:
            start -= 1
        desc[i] = (stop, start if not on[start] and start > 0 else 0)
    want = []
    for i in sorted(desc):
        hi, lo = desc[i]
        mid = lo + Fraction(hi - lo, 2)
        for e in want:
            if e[0] - e[1] < mid < e[0] + e[1]:
                e[2].append(i)
                break
        else:
            want.append((mid, Fraction(hi - lo) * Fraction(tolerance), [i]))
    if len(want) > 1:
        ctx.reach('two ensembles')
    ctx.check([sorted(e) for e in ens] == [e[2] for e in want], 'ensembles are not the oscillators with simultaneous last oscillations')


def tasks(tier):
    big = tier == 'thorough'
    t = []
    P3 = [[0, 0], [1, 0.5], [0.25, 1.5]]
    P4 = [[0, 0], [2, 0.25], [2.25, 2], [0.5, 1.75]]
    for k in ('ALL_TO_ALL', 'TRIANGULATION_DELAUNAY'):
        t.append(Task('h_cnn', 'cnn %s 3' % k, data=P3, kind=k, steps=3 if big else 2, symbolic=False, neighbors=2))
        t.append(Task('h_cnn', 'cnn %s 4' % k, data=P4, kind=k, steps=2, symbolic=False, neighbors=3))
        t.append(Task('h_cnn', 'cnn %s 5' % k, data=P4 + [[1.25, 1]], kind=k, steps=2, symbolic=False, neighbors=2))
    t.append(Task('h_cnn', 'cnn one step', data=P3, kind='ALL_TO_ALL', steps=1, symbolic=False, neighbors=1))
    t.append(Task('h_cnn', 'cnn stimulus', data=[[0], [1], [3]], kind='ALL_TO_ALL', steps=2, symbolic=True, neighbors=1))
    t.append(Task('h_cnn', 'cnn stimulus 2', data=[[0], [1], [3]], kind='ALL_TO_ALL', steps=2, symbolic=True, neighbors=2))
    t.append(Task('h_cnn_ensembles', 'cnn ensembles', n=3, steps=2))
    t.append(Task('h_cnn_ensembles', 'cnn ensembles 3 steps', n=2, steps=3))
    for k in ('ALL_TO_ALL', 'LIST_BIDIR', 'NONE'):
        t.append(Task('h_hysteresis', 'hysteresis %s' % k, n=3 if k != 'NONE' else 2, kind=k, steps=2 if not big else 3, time=1, own=-4, neigh=-1, bounds=(-3, 3)))
    t.append(Task('h_hysteresis', 'hysteresis 2', n=2, kind='ALL_TO_ALL', steps=3, time=2, own=-4, neigh=2, bounds=(-3, 3)))
    for pot in (True, False):
        s = ' potential' if pot else ''
        t.append(Task('h_legion', 'legion x' + s, n=2, kind='ALL_TO_ALL', steps=2, time=0.5, potential=pot, sym=('x',)))
        t.append(Task('h_legion', 'legion I noise' + s, n=3, kind='LIST_BIDIR', steps=2 if not big else 3, time=1, potential=pot, sym=('I', 'noise')))
        t.append(Task('h_legion', 'legion three steps' + s, n=2, kind='ALL_TO_ALL', steps=3, time=0.6, potential=pot, sym=()))
    for jump in ((5.0, 30.0, 10.0), (-40.0, 60.0, 25.0)):
        t.append(Task('h_hhn', 'hhn stimulus %s' % jump[0], n=2, steps=1, time=1, sym='stimulus', jump=jump))
        t.append(Task('h_hhn', 'hhn noise %s' % jump[0], n=2, steps=1, time=0.5, sym='noise', jump=jump))
        t.append(Task('h_hhn', 'hhn steps %s' % jump[0], n=1, steps=2, time=0.5, sym='stimulus', jump=jump))
        t.append(Task('h_hhn', 'hhn several %s' % jump[0], n=2, steps=4, time=0.4, sym='none', jump=jump))
    t.append(Task('h_oscillations', 'oscillations 2', n=2, length=5, tolerance=0.3, fixed=1))
    t.append(Task('h_oscillations', 'oscillations 3', n=3, length=5, tolerance=0.6, fixed=1))
    t.append(Task('h_oscillations', 'oscillations free', n=2, length=5, tolerance=0.1, fixed=0))
    return t
