import itertools
from common import *
FUNCTIONS = ['pyclustering.gcolor.dsatur.dsatur.process/get_colors', 'pyclustering.gcolor.sync.syncgcolor (connections, phase equation), syncgcolor_analyser', 'pyclustering.gcolor.hysteresis.hysteresisgcolor (weights, initial states), hysteresis_analyser.allocate_map_coloring']
BOUNDS = dict(quick='DSATUR: every graph of 1..5 vertices and every bipartite graph of 3+3 vertices in two numberings (adjacency symbolic); colour maps of 2..4 oscillators from arbitrary ensembles; phase equation for every graph of 3 vertices with symbolic phases (sine uninterpreted)', thorough='every graph of 6 vertices with a fixed vertex of maximum degree')
REACH = ['edge', 'no edge', 'bipartite', 'odd cycle', 'map']


def setup():
    import pyclustering.gcolor.dsatur, pyclustering.gcolor.sync, pyclustering.gcolor.hysteresis


def graph(ctx, n, free=None):
    """symmetric adjacency matrix; free: the pairs that may be edges"""
    m = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            if free is None or (i, j) in free or (j, i) in free:
                m[i][j] = m[j][i] = ctx.int('e%d_%d' % (j, i), 0, 1)
    return m


def check_coloring(ctx, m, c, n):
    """colors are proper and at most one more than the largest degree; they are 1..k without gaps"""
    c = ints(c)
    ctx.check(len(c) == n, 'not one color per vertex')
    if len(c) != n:
        return None
    ctx.check(all_([eq(R(m[i][j]), 0) for i in range(n) for j in range(i) if c[i] == c[j]]), 'adjacent vertices have the same color')
    k = max(c)
    ctx.check(sorted(set(c)) == list(range(1, k + 1)), 'colors are not numbered one by one')
    s = []
    for i in range(n):
        t = Fraction(0)
        for j in range(n):
            t = t + R(m[i][j])
        s.append(t)
    ctx.check(any_([ge(x, k - 1) for x in s]), 'more colors than the largest degree and one')
    return k


def h_dsatur(ctx, n, parts=None):
    from pyclustering.gcolor.dsatur import dsatur
    free = None
    if parts:
        a = ctx.pick('part', parts)
        free = {(i, j) for i in a for j in range(n) if j not in a}
    m = graph(ctx, n, free)
    d = dsatur(m)
    d.process()
    c = d.get_colors()
    ctx.obs('colors', ints(c))
    k = check_coloring(ctx, m, c, n)
    if k is None:
        return
    full = [[int(x) for x in r] for r in m]
    edges = [(i, j) for i in range(n) for j in range(i) if full[i][j]]
    ctx.reach('edge' if edges else 'no edge')
    # bipartite graphs are colored optimally by this algorithm
    col = [None] * n
    two = True
    for s in range(n):
        if col[s] is None:
            col[s] = 0
            st = [s]
            while st:
                v = st.pop()
                for u in range(n):
                    if full[v][u]:
                        if col[u] is None:
                            col[u] = 1 - col[v]
                            st.append(u)
                        elif col[u] == col[v]:
                            two = False
    if two:
        ctx.reach('bipartite')
        ctx.check(k <= (2 if edges else 1), 'a bipartite graph is not colored by two colors')
    else:
        ctx.reach('odd cycle')
        if n <= 5:
            best = next(q for q in range(3, n + 1) if any(all(t[i] != t[j] for i, j in edges) for t in itertools.product(range(q), repeat=n)))
            ctx.check(k == best, 'a graph of up to five vertices is not colored optimally')
    ctx.check(full == [[int(x) for x in r] for r in m], 'the graph is modified')


def h_map(ctx, n):
    """the color of an oscillator is the number of its ensemble"""
    from pyclustering.gcolor.sync import syncgcolor_analyser
    from pyclustering.gcolor.hysteresis import hysteresis_analyser
    which = ctx.pick('which', [0, 1])
    ens = ctx.pick('ensembles', [list(x) for x in itertools.product(range(n), repeat=n) if all(x[i] <= max(x[:i], default=-1) + 1 for i in range(n))])
    order = ctx.pick('order', [list(o) for o in itertools.permutations(range(max(ens) + 1))])
    groups = [[i for i in range(n) if order[ens[i]] == g] for g in range(max(ens) + 1)]
    a = syncgcolor_analyser([[0.0] * n], [0.0], None) if which == 0 else hysteresis_analyser([[0.0] * n], [0.0])
    a.allocate_sync_ensembles = lambda *args, **kw: groups
    r = ints(a.allocate_map_coloring(0.1))
    ctx.check(r == [order[e] for e in ens], 'the color of an oscillator is not the number of its ensemble')
    ctx.reach('map')


def h_phase(ctx, n):
    """coupled oscillators repel each other, others attract"""
    from pyclustering.gcolor.sync import syncgcolor
    m = graph(ctx, n)
    pos, neg = 2.0, -3.0
    net = syncgcolor(m, pos, neg)
    ph = [ctx.real('p%d' % i, 0, 6) for i in range(n)]
    if not hasattr(net, "_phases"):
        raise core.Unsupported("phases are kept under another name")
    net._phases = list(ph)
    for i in range(n):
        for j in range(n):
            ctx.check(bool(net.has_connection(i, j)) == bool(m[i][j] > 0), 'oscillators are not coupled as the graph')
    i = ctx.pick('i', list(range(n)))
    t = ctx.real('t', 0, 6)
    v = R(net._phase_kuramoto(t, 0, i))
    import math
    s = Fraction(0)
    for k in range(n):
        d = ph[k] - t
        s = s + (Fraction(-3) if m[i][k] > 0 else Fraction(2)) * R(d.sin() if isinstance(d, SymReal) else math.sin(d))
    ctx.check(near(v * n, s), 'the phase equation is not the documented one')


def h_hysteresis(ctx, n):
    from pyclustering.gcolor.hysteresis import hysteresisgcolor
    m = graph(ctx, n)
    for r in m:
        ctx.assume(ge(sum([R(x) for x in r], Fraction(0)), 1))
    al, ep = ctx.real('alpha', 0, 10), ctx.real('eps', 0, 10)
    net = hysteresisgcolor(m, al, ep)
    w = net._weight
    for i in range(n):
        d = sum([R(x) for x in m[i]], Fraction(0))
        for j in range(n):
            ctx.check(near(w[i][j], -R(al) - R(ep)) if i == j else near(R(w[i][j]) * d, -R(al) * R(m[i][j])), 'a weight of the network does not follow the graph')
    ctx.check(all_([near(net._states[i], 1 - Fraction(2 * i, n)) for i in range(n)]), 'initial states are not spread over the interval')


def tasks(tier):
    out = [Task('h_dsatur', name='dsatur %d' % n, n=n) for n in (1, 2, 3, 4, 5)]
    for a in ([0, 1, 2], [0, 2, 4], [0, 3, 5], [1, 2, 4]):
        out.append(Task('h_dsatur', name='bipartite 3+3 %s' % a, n=6, parts=[a]))
    out.append(Task('h_map', n=3))
    out.append(Task('h_phase', n=3))
    out.append(Task('h_hysteresis', n=3))
    if tier != 'quick':
        for a in ([0, 1, 2], [0, 2, 4, 6], [1, 2, 5]):
            out.append(Task('h_dsatur', name='bipartite 7 %s' % a, n=7, parts=[a]))
        out.append(Task('h_dsatur', name='dsatur 6', n=6))
        out.append(Task('h_map', n=4))
    return out
