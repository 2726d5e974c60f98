from common import *
FUNCTIONS = ['pyclustering.cluster.bsas.bsas, mbsas.mbsas, ttsas.ttsas (process, _find_nearest_cluster, _update_representative, __process_objects, __process_skipped_object)', 'ccore bsas/mbsas/ttsas (process, find_nearest_cluster, update_representative, process_objects)', 'bsas/mbsas/ttsas interfaces and wrappers']
BOUNDS = dict(quick='3..4 symbolic 1-D points, 3 symbolic-coordinate 2-D points, mixed sets of 6 points; symbolic thresholds; maximum amount of clusters 1..n; Euclidean, squared Euclidean, Manhattan', thorough='5 points')
REACH = ['bsas-limit', 'mean-of-three', 'ttsas-second-pass']


def setup():
    import pyclustering.cluster.bsas, pyclustering.cluster.mbsas, pyclustering.cluster.ttsas


FINDING = 'P07-ccore-representative-weight'


class Bad(Exception):
    pass


class Sim:
    """the sequential scheme replayed along the reported clusters; collects obligations. listed=True replays the listed finding: the
    C++ core weights the update of a representative by the amount of clusters instead of the size of the cluster"""

    def __init__(self, ctx, data, clusters, metric, listed):
        self.ctx, self.data, self.m, self.listed = ctx, data, metric, listed
        self.first = [c[0] for c in clusters]
        self.lab = labels_of(clusters, len(data))
        self.reps, self.mem, self.out = [], [], []

    def need(self, f, msg):
        self.out.append((f, msg))
        if f is False:
            raise Bad()

    def dists(self, i):
        return [dist(self.m, self.data[i], r) for r in self.reps]

    def create(self, i):
        self.need(len(self.mem) < len(self.first) and self.first[len(self.mem)] == i, 'a point that is dissimilar to every cluster does not start the next cluster')
        self.reps.append([R(v) for v in self.data[i]])
        self.mem.append([i])

    def join(self, i):
        k = self.lab[i]
        self.need(k is not None and k < len(self.reps), 'a point is not in one of the clusters known when it is processed')
        ds = self.dists(i)
        self.need(all_([le(ds[k], d + TOL) for d in ds]), 'a point does not join a nearest cluster')
        self.mem[k].append(i)
        if self.listed:
            w = Fraction(1, len(self.mem))
            self.reps[k] = [a * (1 - w) + R(b) * w for a, b in zip(self.reps[k], self.data[i])]
        else:
            self.reps[k] = mean_of(self.data, self.mem[k])
        if len(self.mem[k]) > 2:
            self.ctx.reach('mean-of-three')

    def finish(self, clusters, reps):
        self.need([sorted(m) for m in self.mem] == [sorted(c) for c in clusters], 'clusters differ from the sequential scheme')
        self.need(len(reps) == len(self.reps) and all_([same_point(a, b) for a, b in zip(reps, self.reps)]), 'a representative is not the mean of its cluster')

    def run_bsas(self, algo, t, mx):
        later = []
        for i in range(len(self.data)):
            far = all(bool(d > t) for d in self.dists(i))
            if far and len(self.mem) >= mx:
                self.ctx.reach('bsas-limit')
            if far and len(self.mem) < mx:
                self.create(i)
            elif algo == 'bsas':
                self.join(i)
            else:
                later.append(i)
        for i in later:
            self.join(i)

    def run_ttsas(self, t1, t2):
        todo = list(range(len(self.data)))
        changed = False
        passes = 0
        while todo:
            before = len(todo)
            rest = []
            for i in todo:
                if not changed and i == todo[0]:
                    self.create(i)
                    continue
                ds = self.dists(i)
                if any(bool(d <= t1) for d in ds):
                    self.join(i)
                elif all(bool(d > t2) for d in ds):
                    self.create(i)
                else:
                    rest.append(i)
            changed = len(rest) != before
            todo = rest
            passes += 1
        if passes > 1:
            self.ctx.reach('ttsas-second-pass')


def judge(ctx, data, clusters, reps, metric, run):
    def go(listed):
        s = Sim(ctx, data, clusters, metric, listed)
        try:
            run(s)
            s.finish(clusters, reps)
        except Bad:
            pass
        return s.out
    out = go(False)
    if not ctx.cc:
        for f, msg in out:
            ctx.check(f, msg)
        return
    listed = all_([a for a, _ in go(True)])
    ctx.check(all_([a for a, _ in out]), 'the clusters or representatives differ from the sequential scheme with means as representatives', known=(FINDING, listed))


def h_bsas(ctx, spec, metric, algo, thr=None):
    data = mixed(ctx, spec)
    n = len(data)
    t = ctx.real('t', 0, 50) if thr is None else thr
    mx = ctx.pick('max', list(range(1, n + 1)) if n < 5 else [2, 3])
    if algo == 'bsas':
        from pyclustering.cluster.bsas import bsas as A
    else:
        from pyclustering.cluster.mbsas import mbsas as A
    inst = A(copy_points(data), mx, t, ctx.cc, metric=metric_obj(metric))
    inst.process()
    clusters, reps = [ints(c) for c in inst.get_clusters()], inst.get_representatives()
    ctx.obs('clusters', clusters)
    ctx.check(partition(clusters, n) and len(clusters) <= mx, 'clusters are not a partition into at most the allowed amount of clusters')
    if partition(clusters, n):
        judge(ctx, data, clusters, reps, metric, lambda s: s.run_bsas(algo, t, mx))


def h_ttsas(ctx, spec, metric, thr=None):
    from pyclustering.cluster.ttsas import ttsas
    data = mixed(ctx, spec)
    n = len(data)
    if thr is None:
        t1, t2 = ctx.real('t1', 0, 50), ctx.real('t2', 0, 50)
        ctx.assume(le(t1, t2))
    else:
        t1, t2 = thr
    inst = ttsas(copy_points(data), t1, t2, ctx.cc, metric=metric_obj(metric))
    inst.process()
    clusters, reps = [ints(c) for c in inst.get_clusters()], inst.get_representatives()
    ctx.obs('clusters', clusters)
    ctx.check(partition(clusters, n), 'clusters are not a partition of the data')
    if partition(clusters, n):
        judge(ctx, data, clusters, reps, metric, lambda s: s.run_ttsas(t1, t2))


def tasks(tier):
    o = (None,)
    L = [('1d3', [o] * 3, 'sq', None), ('1d3', [o] * 3, 'euc', 5.0), ('1d4', [o] * 4, 'sq', 9.0), ('2d3', [(None, 1.), (0., None), (2., None)], 'sq', 4.0), ('mix6', [o, (0.,), (12.,), o, (36.,), (48.,)], 'sq', 144.0), ('1d3', [o] * 3, 'man', 4.0)]
    if tier != 'quick':
        L += [('1d4', [o] * 4, 'sq', None), ('1d5', [o] * 5, 'sq', 9.0), ('2d3', [(None, None)] * 3, 'sq', 4.0)]
    out = []
    for cc in (False, True):
        for nm, spec, m, thr in L:
            for a in ('bsas', 'mbsas'):
                out.append(Task('h_bsas', name='%s%s %s %s t=%s' % (a, '[cc]' if cc else '', nm, m, thr), cc=cc, spec=spec, metric=m, algo=a, thr=thr))
            if cc and nm == '1d4' and tier == 'quick':
                m, thr = 'man', 3.0
            out.append(Task('h_ttsas', name='ttsas%s %s %s t=%s' % ('[cc]' if cc else '', nm, m, thr), cc=cc, spec=spec, metric=m, thr=None if thr is None else (thr, 3 * thr)))
    return out
