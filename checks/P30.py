from common import *
FUNCTIONS = ['pyclustering.nnet.pcnn.pcnn_network (simulate, _calculate_states), pcnn_dynamic', 'ccore nnet::pcnn (simulate, calculate_states, fast_linking), pcnn_dynamic, pcnn_interface.cpp, pcnn_wrapper.py']
BOUNDS = dict(quick='2..4 oscillators of every structure, 2..4 steps, symbolic stimulus in [-1,12] and symbolic initial thresholds in [0,1] (Python), six sets of parameters with and without fast linking; dynamics of 3 states of 3 oscillators', thorough='5 oscillators, 5 steps')
REACH = ['fires', 'silent', 'alternates', 'linked', 'refused']
SETS = [dict(), dict(VF=0.7, VL=1.5, VT=3.0, AF=0.25, AL=0.5, AT=0.75, W=0.8, M=0.4, B=0.6), dict(M=0.0), dict(VF=2.0, W=0.25, AL=0.75, B=-0.3, VT=1.0), dict(W=0.0, AT=0.0, AF=0.9), dict(VL=0.3, M=1.7, B=2.0, AT=0.9, VT=0.5), dict(VF=1.0, VL=1.0, VT=3.0, AF=0.25, AL=0.5, AT=0.5, W=-1.0, M=0.0, B=0.5), dict(VF=1.0, VL=1.0, VT=3.0, AF=0.25, AL=0.5, AT=0.5, W=-1.0, M=0.0, B=1.0)]


def setup():
    import pyclustering.nnet.pcnn


class draws:
    def __init__(self, ctx, fixed=()):
        self.old, self.taken = ctx.rnd01, []

        def rnd01():
            k = len(self.taken)
            v = fixed[k] if k < len(fixed) else self.old()
            self.taken.append(v)
            return v
        ctx.rnd01 = rnd01


def linked(kind, n, i, j, width=None):
    if i == j or kind == 'NONE':
        return False
    if kind == 'ALL_TO_ALL':
        return True
    if kind == 'LIST_BIDIR':
        return abs(i - j) == 1
    x, y = abs(i % width - j % width), abs(i // width - j // width)
    return x + y == 1 if kind == 'GRID_FOUR' else max(x, y) == 1


def model(P, near_, f0, l0, o0, t0, stim, fast):
    """one step of the documented equations; forks on the comparisons. Returns None when a comparison is too close to decide."""
    n = len(o0)
    p = {k: Fraction(getattr(P, k)) for k in ('VF', 'VL', 'VT', 'AF', 'AL', 'AT', 'W', 'M', 'B')}

    def fires(f, l, t):
        u = f * (1 + p['B'] * l) - t
        if u > TOL:
            return 1
        return 0 if u <= -TOL or not isinstance(u, core.SymReal) and u == 0 else None
    f, l, o = [], [], []
    for i in range(n):
        a = sum(o0[j] for j in near_[i])
        f.append(p['AF'] * f0[i] + R(stim[i]) + p['VF'] * p['M'] * a)
        l.append(p['AL'] * l0[i] + p['VL'] * p['W'] * a)
        o.append(fires(f[i], l[i], t0[i]))
    if None in o:
        return None
    cycle = False
    if fast:
        seen = {tuple(o)}
        while True:
            l = [p['VL'] * p['W'] * sum(o[j] for j in near_[i]) for i in range(n)]
            q = [fires(f[i], l[i], t0[i]) for i in range(n)]
            if None in q:
                return None
            if q == o:
                break
            o = q
            if tuple(o) in seen:
                cycle = True
                break
            seen.add(tuple(o))
    return f, l, o, [p['AT'] * t0[i] + p['VT'] * o[i] for i in range(n)], cycle


def h_steps(ctx, n, kind, steps, sets, fast, width=None, rounds=1, fixed=(), given=()):
    """outputs of every step are those of the equations"""
    from pyclustering.nnet.pcnn import pcnn_network, pcnn_parameters
    from pyclustering.nnet import conn_type, conn_represent
    P = pcnn_parameters()
    for k, v in SETS[ctx.pick('set', sets)].items():
        setattr(P, k, v)
    P.FAST_LINKING = fast
    d = draws(ctx, fixed)
    rep = conn_represent.MATRIX if ctx.cc else ctx.pick('rep', [conn_represent.MATRIX, conn_represent.LIST])
    size = dict(height=n // width, width=width) if width else {}
    net = pcnn_network(n, P, getattr(conn_type, kind), rep, ccore=ctx.cc, **size)
    ctx.check(len(net) == n, 'wrong size of the network')
    near_ = [[j for j in range(n) if linked(kind, n, i, j, width)] for i in range(n)]
    if not ctx.cc:
        near_ = [ints(net.get_neighbors(i)) for i in range(n)]      # P26 tells which they are
    if ctx.cc:
        t = [Fraction(0)] * n
    else:
        # any thresholds of [0, 1]
        t = [R(x) for x in d.taken]
        ctx.check(len(t) == n, 'not one random threshold per oscillator')
    f, l, o = [Fraction(0)] * n, [Fraction(0)] * n, [0] * n
    for k in range(rounds):
        stim = [ctx.real('s%d_%d' % (k, i), -1, 12) if i >= len(given) or given[i] is None else given[i] for i in range(n)]
        dyn = net.simulate(steps, list(stim))
        out = [ints(s) for s in dyn.output]
        ctx.check(len(out) == steps and len(dyn) == steps and [int(x) for x in dyn.time] == list(range(steps)), 'not one collected state per step')
        if len(out) != steps:
            return
        if not ctx.cc:
            ctx.check(out[0] == list(o), 'the first state is not the current one')
            out = out[1:]
        for s in out:
            r = model(P, near_, f, l, o, t, stim, fast)
            if r is None:
                return
            f, l, o, t, cycle = r
            ctx.reach('fires' if any(o) else 'silent')
            if cycle:
                ctx.reach('alternates')
                return      # whichever of the alternating outputs
            if any(x != 0 for x in l):
                ctx.reach('linked')
            ctx.check(list(s) == o, 'output of a step is not that of the equations')
            if list(s) != o:
                return


def h_dynamic(ctx, n, steps):
    """ensembles and time signal of a dynamic"""
    from pyclustering.nnet.pcnn import pcnn_dynamic, pcnn_network, pcnn_parameters
    from pyclustering.nnet import conn_type
    if ctx.cc:
        P = pcnn_parameters()
        P.VT, P.AT, P.AF = 4.0, 0.5, 0.0
        net = pcnn_network(n, P, conn_type.NONE, ccore=True)
        dyn = net.simulate(steps, [ctx.real('s%d' % i, -1, 6) for i in range(n)])
        out = [ints(s) for s in dyn.output]
    else:
        out = [[ctx.choose(2) for _ in range(n)] for _ in range(steps)]
        dyn = pcnn_dynamic([list(s) for s in out])
    ctx.check(ints(dyn.allocate_time_signal()) == [sum(s) for s in out], 'time signal is not the amount of active oscillators')
    spikes = [[i for i in range(n) if s[i]] for s in out]
    ctx.check([ints(e) for e in dyn.allocate_spike_ensembles()] == [e for e in spikes if e], 'spike ensembles are not the active oscillators of the steps')
    sync, used = [], set()
    for s in range(steps - 1, 0 if not ctx.cc else -1, -1):
        e = [i for i in spikes[s] if i not in used]
        used.update(e)
        if e:
            sync.append(e)
    got = [ints(e) for e in dyn.allocate_sync_ensembles()]
    first = [i for i in spikes[0] if i not in used]
    ctx.check(got == sync or (not ctx.cc and first and got == sync + [first]), 'synchronous ensembles are not the oscillators whose last spikes are simultaneous')


def h_refused(ctx):
    """a stimulus of a wrong length is refused"""
    from pyclustering.nnet.pcnn import pcnn_network
    from pyclustering.nnet import conn_type
    n = 1 + ctx.choose(4)
    net = pcnn_network(n, None, conn_type.NONE, ccore=ctx.cc)
    m = ctx.choose(7)
    try:
        net.simulate(2, [1.0] * m)
        ctx.check(m == n, 'a stimulus of a wrong length is accepted')
    except NameError:
        ctx.reach('refused')
        ctx.check(m != n, 'a stimulus of the size of the network is refused')


def tasks(tier):
    q = tier == 'quick'
    out = []
    every = list(range(len(SETS)))
    for cc in (False, True):
        s = '[cc]' if cc else ''
        p = 0 if cc else 1      # the first state of Python is the initial one

        def add(n, kind, steps, sets, fast, width=None, rounds=1, fixed=(), given=()):
            out.append(Task('h_steps', name='steps%s n=%d %s steps=%d sets=%s%s%s' % (s, n, kind, steps, ','.join(map(str, sets)), ' fast' if fast else '', ('' if rounds == 1 else ' rounds=%d' % rounds) + (' given=%s' % (given,) if given else '')), cc=cc, rng=True, n=n, kind=kind, steps=steps + p, sets=sets, fast=fast, width=width, rounds=rounds, fixed=fixed, given=given))
        for fast in (False, True):
            for a in ([0, 1], [2, 3], [4, 5]):
                add(2, 'ALL_TO_ALL', 3 if q else 5, a, fast)
            add(3, 'LIST_BIDIR', 2, [1], fast, fixed=(0.5, 0.25) if fast else ())
            add(3, 'ALL_TO_ALL', 1 if fast and q and not cc else 2, [1], fast)
            add(4, 'GRID_FOUR', 2 if not q else 1, [0], fast, 2)
            add(2, 'NONE', 2, [1], fast)
            add(2, 'LIST_BIDIR', 2 - fast, [1], fast, rounds=2, fixed=(0.5, 0.25))
            if fast:
                # a pulse that takes back what it caused: the order of the updates matters
                add(3, 'ALL_TO_ALL', 3, [7], fast, fixed=(0.5, 0.25, 0.75), given=(3.0, None, 0.5) if q else (None, 0.5, 0.5))
                add(4, 'LIST_BIDIR', 2, [6], fast, fixed=(0.5, 0.25, 0.75, 0.5), given=(1.0, -1.0, None, None if not q else 3.0))
                add(4, 'LIST_BIDIR', 2, [6], fast, fixed=(0.5, 0.25, 0.75, 0.5), given=(1.0, -1.0, 3.0, None))
            if not q:
                add(4, 'GRID_EIGHT', 2, [1], fast, 2)
                add(6, 'GRID_FOUR', 1, [1], fast, 3)
        out.append(Task('h_dynamic', name='dynamic%s' % s, cc=cc, rng=cc, n=3, steps=3))
        out.append(Task('h_refused', name='refused%s' % s, cc=cc, rng=True))
    return out
