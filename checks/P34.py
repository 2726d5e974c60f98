from common import *
FUNCTIONS = ['argument verification of all clustering algorithms and initializers of pyclustering.cluster', 'their processing for the smallest permitted arguments and data (Python and C++ core)']
BOUNDS = dict(quick='data of 0..3 one-dimensional or two-dimensional points (one symbolic coordinate, equal points included); for every documented argument a symbolic value on both sides of its bounds (integers -3..4, real numbers -2..3), the other arguments at usual values', thorough='data of up to 4 points')
REACH = ['refused', 'accepted', 'no data', 'one point']


def setup():
    import pyclustering.cluster.kmeans, pyclustering.cluster.kmedians, pyclustering.cluster.kmedoids, pyclustering.cluster.xmeans, pyclustering.cluster.gmeans, pyclustering.cluster.fcm
    import pyclustering.cluster.elbow, pyclustering.cluster.silhouette, pyclustering.cluster.dbscan, pyclustering.cluster.optics, pyclustering.cluster.rock, pyclustering.cluster.cure
    import pyclustering.cluster.clique, pyclustering.cluster.bang, pyclustering.cluster.bsas, pyclustering.cluster.mbsas, pyclustering.cluster.ttsas, pyclustering.cluster.agglomerative
    import pyclustering.cluster.birch, pyclustering.cluster.clarans, pyclustering.cluster.ema, pyclustering.cluster.somsc, pyclustering.cluster.center_initializer, pyclustering.cluster.ga


def mod(name):
    import importlib
    return importlib.import_module('pyclustering.cluster.' + name)


CONCRETE = ('gmeans', 'birch', 'genetic_algorithm', 'xmeans', 'somsc', 'silhouette_ksearch', 'elbow', 'elbow step')


def clustering(x):
    x.process()
    return x.get_clusters()


def with_noise(x):
    x.process()
    return list(x.get_clusters()) + [x.get_noise()]


def nonneg(v, n): return v >= 0
def positive(v, n): return v >= 1
def anything(v, n): return True
def unit(v, n): return 0 <= v and v <= 1
def amount(v, n): return 1 <= v and v <= n
def first(d): return [list(d[0])] if len(d) else [[0.0]]


# name: (constructor(data, cc, arguments), processing, {argument: (kind, usual value, valid(value, n), values that are processed)}, implementations, smallest data)
def table():
    T = {}
    few = lambda v, n: v <= n
    T['kmeans'] = (lambda d, cc, a: mod('kmeans').kmeans(d, first(d), a['tolerance'], ccore=cc, itermax=a['itermax']), clustering, dict(tolerance=('real', 0.001, nonneg, anything), itermax=('int', 10, nonneg, anything)), (False, True), 1)
    T['kmedians'] = (lambda d, cc, a: mod('kmedians').kmedians(d, first(d), a['tolerance'], ccore=cc, itermax=a['itermax']), clustering, dict(tolerance=('real', 0.001, nonneg, anything), itermax=('int', 10, nonneg, anything)), (False, True), 1)
    T['kmedoids'] = (lambda d, cc, a: mod('kmedoids').kmedoids(d, [0], a['tolerance'], ccore=cc, itermax=a['itermax']), clustering, dict(tolerance=('real', 0.001, nonneg, anything), itermax=('int', 10, nonneg, anything)), (False, True), 1)
    T['build'] = (lambda d, cc, a: mod('kmedoids').build(d, a['k'], cc), lambda x: [x.initialize()], dict(k=('int', 1, amount, anything)), (False, True), 1)
    T['xmeans'] = (lambda d, cc, a: mod('xmeans').xmeans(d, first(d), 2, a['tolerance'], ccore=cc, repeat=a['repeat'], alpha=a['alpha'], beta=a['beta']), clustering,
                   dict(tolerance=('real', 0.001, nonneg, anything), repeat=('int', 1, positive, anything), alpha=('real', 0.5, unit, anything), beta=('real', 0.5, unit, anything)), (False, True), 1)
    T['gmeans'] = (lambda d, cc, a: mod('gmeans').gmeans(d, a['k_init'], cc, tolerance=a['tolerance'], repeat=a['repeat'], k_max=a['k_max']), clustering,
                   dict(k_init=('int', 1, lambda v, n: 1 <= v and v <= 2, few), tolerance=('real', 0.001, lambda v, n: v > 0, anything), repeat=('int', 1, positive, anything), k_max=('int', 2, lambda v, n: v == -1 or v >= 1, anything)), (False, True), 1)
    T['elbow'] = (lambda d, cc, a: mod('elbow').elbow(d, a['kmin'], a['kmax'], ccore=cc), lambda x: [x.process().get_amount()] and [], dict(kmin=('int', 1, lambda v, n: v == 1, anything), kmax=('int', 3, lambda v, n: v == 3, anything)), (False, True), 3)
    T['elbow step'] = (lambda d, cc, a: mod('elbow').elbow(d, 1, 3, kstep=a['kstep'], ccore=cc), lambda x: [x.process().get_amount()] and [], dict(kstep=('int', 1, lambda v, n: v == 1, anything)), (False, True), 3)
    T['silhouette_ksearch'] = (lambda d, cc, a: mod('silhouette').silhouette_ksearch(d, a['kmin'], a['kmax'], ccore=cc), lambda x: [x.process().get_amount()] and [],
                               dict(kmin=('int', 2, lambda v, n: v > 1, lambda v, n: v < 3), kmax=('int', 3, lambda v, n: v <= n, lambda v, n: v > 2)), (False, True), 3)
    T['dbscan'] = (lambda d, cc, a: mod('dbscan').dbscan(d, a['eps'], a['neighbors'], cc), with_noise, dict(eps=('real', 1.0, nonneg, anything), neighbors=('int', 2, anything, nonneg)), (False, True), 1)
    T['optics'] = (lambda d, cc, a: mod('optics').optics(d, a['eps'], a['minpts'], a['amount'], cc), with_noise, dict(eps=('real', 1.0, nonneg, anything), minpts=('int', 2, nonneg, positive), amount=('int', None, positive, anything)), (False, True), 1)
    T['rock'] = (lambda d, cc, a: mod('rock').rock(d, a['eps'], a['k'], a['threshold'], cc), clustering, dict(eps=('real', 1.0, nonneg, anything), k=('int', 1, positive, anything), threshold=('real', 0.5, unit, anything)), (False, True), 1)
    T['cure'] = (lambda d, cc, a: mod('cure').cure(d, a['k'], a['represent'], a['compression'], cc), clustering, dict(k=('int', 1, positive, anything), represent=('int', 2, positive, anything), compression=('real', 0.5, nonneg, anything)), (False, True), 1)
    T['clique'] = (lambda d, cc, a: mod('clique').clique(d, a['intervals'], a['density'], ccore=cc), with_noise, dict(intervals=('int', 2, positive, anything), density=('int', 0, nonneg, anything)), (False, True), 1)
    T['bang'] = (lambda d, cc, a: mod('bang').bang(d, a['levels'], False, density_threshold=a['density'], amount_threshold=a['amount']), with_noise, dict(levels=('int', 2, positive, anything), density=('real', 0.0, nonneg, anything), amount=('int', 0, nonneg, anything)), (False,), 2)
    for alg in ('bsas', 'mbsas'):
        T[alg] = (lambda d, cc, a, alg=alg: getattr(mod(alg), alg)(d, a['amount'], a['threshold'], ccore=cc), clustering, dict(amount=('int', 2, positive, anything), threshold=('real', 1.0, nonneg, anything)), (False, True), 1)
    T['ttsas'] = (lambda d, cc, a: mod('ttsas').ttsas(d, a['threshold'], 2.5, ccore=cc), clustering, dict(threshold=('real', 1.0, nonneg, lambda v, n: v < 2.5)), (False, True), 1)
    T['agglomerative'] = (lambda d, cc, a: mod('agglomerative').agglomerative(d, a['k'], mod('agglomerative').type_link.SINGLE_LINK, cc), clustering, dict(k=('int', 1, positive, anything)), (False, True), 1)
    T['birch'] = (lambda d, cc, a: mod('birch').birch(d, a['k'], max_node_entries=3, entry_size_limit=a['limit']), clustering, dict(k=('int', 1, positive, few), limit=('int', 5, positive, anything)), (False,), 1)
    T['clarans'] = (lambda d, cc, a: mod('clarans').clarans(d, a['k'], a['numlocal'], a['maxneighbor']), clustering, dict(k=('int', 1, positive, few), numlocal=('int', 1, nonneg, anything), maxneighbor=('int', 1, nonneg, anything)), (False,), 1)
    T['somsc'] = (lambda d, cc, a: mod('somsc').somsc(d, a['k'], a['epoch'], cc), clustering, dict(k=('int', 1, positive, anything), epoch=('int', 1, nonneg, anything)), (False, True), 1)
    T['random_center_initializer'] = (lambda d, cc, a: mod('center_initializer').random_center_initializer(d, a['k']), lambda x: [ints(x.initialize(return_index=True))], dict(k=('int', 1, lambda v, n: 1 <= v and v <= n, anything)), (False,), 1)
    T['kmeans_plusplus_initializer'] = (lambda d, cc, a: mod('center_initializer').kmeans_plusplus_initializer(d, a['k'], a['candidates']), lambda x: [ints(x.initialize(return_index=True))],
                                        dict(k=('int', 1, lambda v, n: 1 <= v and v <= n, anything), candidates=('int', 1, lambda v, n: 1 <= v and v <= n, anything)), (False,), 1)
    T['genetic_algorithm'] = (lambda d, cc, a: mod('ga').genetic_algorithm(d, a['k'], 2, 0), clustering, dict(k=('int', 1, positive, few)), (False,), 1)
    return T


def h_argument(ctx, alg, arg, sizes, dim=1):
    """a value outside the documented bounds is refused, a value inside is accepted and processed"""
    make, run, args, _, least = table()[alg]
    n = sizes[ctx.choose(len(sizes))]
    spec = [[None], [1.0], [1.0], [4.0]][:n] if dim == 1 else [[None, 0.0], [1.0, 2.0], [1.0, 2.0], [4.0, 1.0]][:n]
    if alg in CONCRETE:
        spec = [[float(3 * i if x is None else x) for x in r] for i, r in enumerate(spec)]
    data = mixed(ctx, spec, -5, 5)
    a = {k: v[1] for k, v in args.items()}
    kind, _, valid, processed = args[arg]
    v = ctx.int(arg, -3, 4) if kind == 'int' else ctx.real(arg, -2, 3)
    if kind == 'int' and alg in CONCRETE + ('clique', 'cure', 'bang', 'rock'):
        v = int(v)
    elif kind == 'real' and bool(v < 0):
        v = -0.5            # messages print the value
    elif alg == 'gmeans' and bool(v == 0):
        v = 0.0
    elif alg == 'xmeans' and arg in ('alpha', 'beta') and bool(v > 1):
        v = 1.5
    a[arg] = v
    ok = bool(n >= 1) and bool(valid(v, n))
    if ok and (alg, arg) == ('rock', 'threshold'):
        a[arg] = 0.0 if v == 0 else 1.0 if v == 1 else 0.5      # an exponent
    if ok and (alg, arg) == ('gmeans', 'tolerance'):
        a[arg] = 0.5
    x, refused = None, None
    try:
        x = make(copy_points(data), ctx.cc, a)
    except ValueError:
        refused = True
    except (AttributeError, TypeError, IndexError, KeyError, ZeroDivisionError, NameError, RuntimeError) as e:
        refused = type(e).__name__
    ctx.obs('refused', refused)
    if not ok:
        ctx.reach('no data' if n == 0 else 'refused')
        ctx.check(refused is True, 'an invalid value is not refused with ValueError')
        return
    if n < least:
        return
    ctx.check(refused is None, 'a valid value is refused')
    if refused is not None or not bool(processed(v, n)):
        return
    ctx.reach('one point' if n == 1 else 'accepted')
    if alg in ('clarans', 'gmeans', 'xmeans', 'somsc', 'birch'):
        # draws in turn: the others checks explore them
        seq = {}

        def choose(m):
            seq[m] = seq.get(m, -1) + 1
            return seq[m] % m
        ctx.choose, ctx.rnd01 = choose, lambda: 0.5
    try:
        r = [ints(c) for c in run(x)]
    finally:
        ctx.__dict__.pop('choose', None)
        ctx.__dict__.pop('rnd01', None)
    ctx.obs('result', r)
    flat = [i for c in r for i in c]
    ctx.check(len(set(flat)) == len(flat) and all(0 <= i < n for i in flat), 'the result names an object twice or an object that does not exist')


def tasks(tier):
    q = tier == 'quick'
    out = []
    for alg, (_, _, args, ccs, least) in table().items():
        for cc in ccs:
            for i, arg in enumerate(args):
                sizes = ([0] if i == 0 else []) + sorted({least, max(least, 3)} | (set() if q else {4}))
                out.append(Task('h_argument', name='%s%s %s' % (alg, '[cc]' if cc else '', arg), cc=cc, rng=alg in ('xmeans', 'gmeans', 'elbow', 'elbow step', 'silhouette_ksearch', 'clarans', 'somsc', 'random_center_initializer', 'kmeans_plusplus_initializer', 'genetic_algorithm'), alg=alg, arg=arg, sizes=sizes))
    return out
