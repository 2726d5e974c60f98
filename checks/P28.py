import ctypes
from common import *
FUNCTIONS = ['ccore parallel::parallel_for, parallel::parallel_for_each (partition of the work among the threads, for any amount of threads)', 'every use of them: kmeans::update_clusters/update_centers, kmedians, kmedoids (update_clusters, swap search), fcm (memberships, centers)']
BOUNDS = dict(quick='loops over [start, end) with a symbolic start of 0..2 and a symbolic length of 0..13, symbolic steps of 1..3 and 1..9 symbolic threads; the algorithms: 4..5 points of one dimension with up to five symbolic coordinates in [-100,100], machines of 1, 2, 3, 4 and 9 hardware threads; the schedule of the tasks: every one of four policies (at creation, at join, in reverse order, alternating), for loops every choice of the point between creation and join; tasks are not interrupted by each other', thorough='lengths up to 40, 1..12 threads')
REACH = ['several tasks', 'one task', 'step', 'more threads than work', 'deferred', 'same as one thread']


def setup():
    import pyclustering.cluster.kmeans, pyclustering.cluster.kmedians, pyclustering.cluster.kmedoids, pyclustering.cluster.fcm, pyclustering.cluster.elbow, pyclustering.cluster.xmeans


def policy(p):
    from pyclustering.core.wrapper import ccore_library
    ccore_library.get().sym_sched(ctypes.c_int(p))


def h_loop(ctx, kinds, length, maxt, hw, free=False):
    """every index of a loop is visited exactly once, whatever the amount of threads and the order of their tasks"""
    kind = ctx.pick('kind', kinds)
    start = ctx.int('start', 0, 2)
    n = ctx.int('n', 0, length)
    step = ctx.int('step', 1, 3) if kind == 0 else 1
    t = ctx.int('t', 1, maxt) if kind in (0, 2) else hw - 1
    policy(-1 if free else ctx.choose(4))
    visited = ints(ext('verif_parallel', [[kind, start, start + n, step, t]])[0])
    policy(0)
    a, k, s, t = int(start), int(n), int(step), int(t)
    ctx.obs('visited', sorted(visited))
    ctx.check(sorted(visited) == list(range(a, a + k, s)), 'an index of a parallel loop is not visited exactly once')
    if s > 1 and k > s:
        ctx.reach('step')
    if t > k > 1:
        ctx.reach('more threads than work')
    if visited != sorted(visited):
        ctx.reach('deferred')
    if t == 1:
        ctx.reach('one task')
    elif t > 1 and k > t:
        ctx.reach('several tasks')


def flat(x):
    if isinstance(x, (list, tuple)):
        return [e for y in x for e in flat(y)]
    return [x]


def same(a, b):
    """equal results up to the rounding of folded constants"""
    fa, fb = flat(a), flat(b)
    return len(fa) == len(fb) and all_([near(x, y) for x, y in zip(fa, fb)])


def run(ctx, algorithm, data):
    pts = copy_points(data)
    if algorithm == 'kmeans':
        from pyclustering.cluster.kmeans import kmeans
        m = kmeans(pts, [[0.0], [10.0]], 0.0, ccore=True, itermax=1)
        m.process()
        return [ints(c) for c in m.get_clusters()], [list(c) for c in m.get_centers()], m.get_total_wce()
    if algorithm == 'kmedians':
        from pyclustering.cluster.kmedians import kmedians
        m = kmedians(pts, [[0.0], [10.0]], 0.0, ccore=True, itermax=1)
        m.process()
        return [ints(c) for c in m.get_clusters()], [list(c) for c in m.get_medians()], m.get_total_wce()
    if algorithm == 'kmedoids':
        from pyclustering.cluster.kmedoids import kmedoids
        m = kmedoids(pts, [0, 1], 0.0, ccore=True, itermax=1)
        m.process()
        return [ints(c) for c in m.get_clusters()], ints(m.get_medoids())
    if algorithm == 'fcm':
        from pyclustering.cluster.fcm import fcm
        m = fcm(pts, [[0.0], [10.0]], ccore=True, itermax=1)
        m.process()
        return [ints(c) for c in m.get_clusters()], [list(c) for c in m.get_centers()], [list(c) for c in m.get_membership()]
    ctx.rnd01 = lambda: 0.25        # both runs start from the same phases
    if algorithm == 'sync':
        from pyclustering.nnet.sync import sync_network
        m = sync_network(len(data), 0.5, ccore=True)
        d = m.simulate_static(2, 1.0, collect_dynamic=True)
        return [list(r) for r in d.output]


def h_algorithm(ctx, algorithm, spec, hw):
    """results do not depend on the order of the tasks"""
    data = mixed(ctx, spec)
    policy(0)
    a = run(ctx, algorithm, data)
    policy(1 + ctx.choose(3))
    b = run(ctx, algorithm, data)
    policy(0)
    ctx.obs('result', a)
    ctx.check(same(a, b), 'the result depends on the order of the parallel tasks')
    ctx.reach('same as one thread' if hw < 3 else 'several tasks')


def tasks(tier):
    q = tier == 'quick'
    L, T = (13, 9) if q else (40, 12)
    out = [Task('h_loop', name='loop %s n<=%d, 1..%d threads' % (nm, L, T), cc=True, sched=True, kinds=[k], length=L, maxt=T, hw=4) for k, nm in ((0, 'for'), (2, 'for_each'))]
    out += [Task('h_loop', name='loop free schedule %s' % nm, cc=True, sched=True, kinds=[k], length=5, maxt=4, hw=4, free=True) for k, nm in ((0, 'for'), (2, 'for_each'))]
    for hw in (1, 2, 3, 4, 9):
        out.append(Task('h_loop', name='loop on %d hardware threads' % hw, cc=True, sched=True, threads=hw, kinds=[1, 3], length=L, maxt=1, hw=max(hw, 2)))
    A = [('sync', [[0.0]] * 3), ('kmeans', [[None], [2.0], [None], [9.0]]), ('kmedians', [[None], [2.0], [None], [9.0]]), ('kmedoids', [[None], [2.0], [None], [9.0]]), ('fcm', [[1.0], [2.0], [None], [8.0]])]
    for alg, spec in A:
        for hw in ((1, 4) if q else (1, 2, 3, 4, 9)):
            out.append(Task('h_algorithm', name='%s on %d hardware threads' % (alg, hw), cc=True, sched=True, threads=hw, algorithm=alg, spec=spec, hw=hw))
    return out
