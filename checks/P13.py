import itertools
from common import *
FUNCTIONS = ['pyclustering.cluster.elbow.elbow (process, __process_by_python, __process_by_ccore, __calculate_elbows, __find_optimal_kvalue, __verify_arguments)', 'ccore clst::elbow<kmeans_plus_plus>, elbow<random_center_initializer>', 'elbow_interface.cpp, elbow_wrapper.py', 'kmeans (Python and C++) inside the search']
BOUNDS = dict(quick='5..7 one-dimensional points, one symbolic coordinate in [-100,100] or symbolic WCE values (up to 5, stubbed k-means), kmin 1..2, kmax up to 6, kstep 1..2, every random choice of the initializers, argument values kmin -1..4, kmax -1..6, kstep -1..4', thorough='two symbolic coordinates')
REACH = ['selected', 'rejected', 'accepted', 'shape']


def setup():
    import pyclustering.cluster.elbow


_wces = {}


def best_wces(data, k):
    if all(not isinstance(x, SymReal) for p in data for x in p):
        key = (repr(data), k)
        if key not in _wces:
            _wces[key] = _best_wces(data, k)
        return _wces[key]
    return _best_wces(data, k)


def _best_wces(data, k):
    """WCE of every grouping of the data into at most k clusters (k-means returns one of them)"""
    n = len(data)
    out = []

    def rec(i, lab, m):
        if i == n:
            s = Fraction(0)
            for c in range(m):
                idx = [j for j in range(n) if lab[j] == c]
                mu = mean_of(data, idx)
                for j in idx:
                    s = s + d2(data[j], mu)
            out.append(s)
            return
        for c in range(min(m + 1, k)):
            rec(i + 1, lab + [c], max(m, c + 1))
    rec(0, [], 0)
    return out


def check_amount(ctx, wce, amount, kmin, kstep, tol=TOL):
    """the reported amount is the interior K whose point is the farthest from the segment between the points of kmin and kmax"""
    m = len(wce)
    w = [R(x) for x in wce]
    # distance times the (positive) length of the segment
    h = [None] + [abs_((w[0] - w[-1]) * i + (m - 1) * (w[i] - w[0])) for i in range(1, m - 1)]
    k = int(amount)
    ok = (k - kmin) % kstep == 0 and 1 <= (k - kmin) // kstep <= m - 2
    ctx.check(ok, 'the amount of clusters is not an interior K of the search')
    if ok:
        b = h[(k - kmin) // kstep]
        ctx.reach('selected')
        ctx.check(all_([ge(b, x - tol * 100) for x in h[1:]]), 'another K is farther from the segment between kmin and kmax')


def h_shape(ctx, m, kmin, kstep, zero_end):
    """the selection rule for arbitrary WCE values: k-means is replaced by a stub that reports symbolic errors"""
    import pyclustering.cluster.elbow as mod
    kmax = kmin + (m - 1) * kstep
    w = [ctx.real('w%d' % i, 0, 1000) for i in range(m)]
    data = [[float(i)] for i in range(kmax + 2)]
    asked = []

    class init:
        def __init__(self, data, amount, *a, **k):
            self.amount = amount

        def initialize(self, *a, **k):
            return [[float(i)] for i in range(self.amount)]

    class km:
        def __init__(self, data, centers, *a, **k):
            self.k = len(centers)

        def process(self):
            asked.append(self.k)
            return self

        def get_total_wce(self):
            return w[(self.k - kmin) // kstep]

        def get_centers(self):
            return []

        def get_clusters(self):
            return []
    real, mod.kmeans = mod.kmeans, km
    try:
        inst = mod.elbow(data, kmin, kmax, kstep=kstep, initializer=init, ccore=False)
        inst.process()
    finally:
        mod.kmeans = real
    ctx.check(asked == [kmin + i * kstep for i in range(m)], 'k-means is not run once for every K from kmin to kmax')
    ctx.reach('shape')
    wce = list(inst.get_wce())
    ctx.check(len(wce) == m and all_([near(a, b) for a, b in zip(wce, w)]), 'the reported errors are not those of k-means')
    check_amount(ctx, w, inst.get_amount(), kmin, kstep)


def h_process(ctx, spec, kmin, kmax, kstep, init):
    from pyclustering.cluster.elbow import elbow
    from pyclustering.cluster.center_initializer import kmeans_plusplus_initializer, random_center_initializer
    data = mixed(ctx, spec)
    n = len(data)
    # one object may not be the copy of all the others
    used = []
    if init == 'stub':
        class stub:
            def __init__(self, d, amount, *a, **k):
                used.append(amount)
                self.d, self.k = d, amount

            def initialize(self, *a, **k):
                idx = ctx.pick('initial', [tuple(range(self.k)), tuple(range(n - self.k, n))])
                return [list(self.d[i]) for i in idx]
        cls = stub
    else:
        cls = {'pp': kmeans_plusplus_initializer, 'rnd': random_center_initializer}[init]
    inst = elbow(copy_points(data), kmin, kmax, kstep=kstep, initializer=cls, random_state=7, ccore=ctx.cc)
    inst.process()
    wce = list(inst.get_wce())
    ks = list(range(kmin, kmax + 1, kstep))
    ctx.check(len(wce) == len(ks), 'there is not one error per K from kmin to kmax')
    if init == 'stub':
        ctx.check(used == ks, 'the requested initializer is not used for every K')
    if len(wce) != len(ks):
        return
    for k, v in zip(ks, wce):
        if k == 1:
            ctx.check(near(v, best_wces(data, 1)[0]), 'the error of one cluster is not the sum of squared distances to the mean')
        elif all(not isinstance(x, SymReal) for p in data for x in p):
            vals = best_wces(data, k)
            ctx.check(any(abs(R(v) - x) <= TOL for x in vals), 'the error of a K is not the error of any clustering of the data into at most K clusters')
        else:
            ctx.check(ge(R(v), -TOL), 'an error is negative')
    check_amount(ctx, wce, inst.get_amount(), kmin, kstep)


def h_args(ctx, n):
    """documented limits of the arguments"""
    from pyclustering.cluster.elbow import elbow
    kmin, kmax, kstep = ctx.int('kmin', -1, 4), ctx.int('kmax', -1, n + 2), ctx.int('kstep', -1, 4)
    data = [[float(i * i)] for i in range(n)]
    from common import core
    a, b, c = int(kmin), int(kmax), int(kstep)      # every combination of the integers
    good = a >= 1 and c >= 1 and b <= n and b - a + 1 >= 3 and (b - a) // c + 1 >= 3
    try:
        elbow(data, a, b, kstep=c, ccore=False)
        got = True
    except ValueError:
        got = False
    ctx.reach('accepted' if got else 'rejected')
    ctx.check(got == good, 'arguments outside the documented limits are accepted' if got else 'arguments within the documented limits are rejected')


def tasks(tier):
    o = (None,)
    out = []
    for m, kmin, kstep in ((3, 1, 1), (4, 1, 1), (4, 2, 2), (5, 1, 1), (5, 3, 2)) + (((6, 1, 1),) if tier != 'quick' else ()):
        out.append(Task('h_shape', name='shape m=%d kmin=%d step=%d' % (m, kmin, kstep), m=m, kmin=kmin, kstep=kstep, zero_end=False))
    D1 = [(0.,), (1.,), (6.,), (7.,), (30.,)]
    D2 = [(12.,), (0.,), (1.,), (10.,), (11.,), (25.,), (3.,)]
    S = [o, (0.,), (2.,), (20.,)]
    D3 = [(0.,), (1.,), (7.,), (30.,)]
    S3 = [o, (0.,), (2.,), (20.,)]
    for spec, a, b, st in ((D1, 1, 4, 1), (D1, 2, 5, 1), (D2, 1, 5, 2), (D2, 1, 6, 1), (S, 1, 3, 1), (S, 2, 4, 1)):
        nm = 'n=%d kmin=%d kmax=%d step=%d free=%d' % (len(spec), a, b, st, sum(v is None for p in spec for v in p))
        out.append(Task('h_process', name='python ' + nm, spec=spec, kmin=a, kmax=b, kstep=st, init='stub'))
        out.append(Task('h_process', name='cc custom initializer ' + nm, cc=True, spec=spec, kmin=a, kmax=b, kstep=st, init='stub'))
    L = [('pp', D1, 1, 4, 1), ('pp', D1, 2, 5, 1), ('pp', D2, 1, 5, 2), ('pp', S, 1, 3, 1), ('rnd', D3, 1, 3, 1), ('rnd', D3, 2, 4, 1)]
    if tier != 'quick':
        L += [('rnd', S3, 2, 4, 1), ('pp', D2, 2, 6, 2), ('rnd', D1, 1, 4, 1), ('rnd', S3, 1, 3, 1), ('pp', S, 2, 4, 1)]
    for init, spec, a, b, st in L:
        nm = 'n=%d kmin=%d kmax=%d step=%d free=%d' % (len(spec), a, b, st, sum(v is None for p in spec for v in p))
        out.append(Task('h_process', name='cc %s %s' % (init, nm), cc=True, rng=True, spec=spec, kmin=a, kmax=b, kstep=st, init=init))
    out.append(Task('h_args', name='arguments', n=6))
    return out
