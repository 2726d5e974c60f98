from common import *
FUNCTIONS = ['pyclustering.cluster.clarans.clarans (process, __update_clusters, __optimize_configuration, __calculate_estimation)']
BOUNDS = dict(quick='2..4 points in one or two dimensions, one or two symbolic coordinates in [-100,100] (duplicates included), 1..4 clusters, 1..2 local searches, 1..2 neighbors; every random choice explored up to 6 draws after the initial medoids, or draws that repeat every index in turn without a limit', thorough='5 points, 8 draws')
REACH = ['swapped', 'kept', 'all medoids', 'two searches', 'duplicates']


def setup():
    import pyclustering.cluster.clarans


def deviation(data, medoids):
    """sum of the squared distances to the nearest medoid (forks on the oracle's side)"""
    s = Fraction(0)
    for p in data:
        m = None
        for j in medoids:
            d = d2(p, data[j])
            if m is None or d < m:
                m = d
        s = s + m
    return s


class TooManyDraws(Exception):
    pass


def h_clarans(ctx, spec, k, numlocal, maxneighbor, limit=None, first=None):
    """limit: amount of draws that are explored freely; without it the draws repeat every value in turn"""
    from pyclustering.cluster.clarans import clarans
    data = mixed(ctx, spec)
    n = len(data)
    samples, seq = [], {}
    free = ctx.choose
    state = dict(draws=0, sampling=False)

    def choose(m):
        state['draws'] += 1
        if limit is not None:
            if state['draws'] > limit + numlocal * k:
                ctx.assume(False)
            return free(m)
        if state['draws'] > 400:
            raise TooManyDraws()
        seq[m] = seq.get(m, -1 if not first else first - 1) + 1
        return seq[m] % m
    ctx.choose = choose
    ctx.on_sample = lambda r: samples.append(ints(r))
    try:
        c = clarans(copy_points(data), k, numlocal, maxneighbor)
        try:
            c.process()
        except TooManyDraws:
            ctx.check(False, 'the search does not end although every candidate was tried many times')
            return
    finally:
        del ctx.choose, ctx.on_sample
    med, clusters = ints(c.get_medoids()), [ints(x) for x in c.get_clusters()]
    ctx.obs('medoids', med)
    ctx.obs('clusters', clusters)
    ok = len(med) == k and len(set(med)) == k and all(0 <= i < n for i in med)
    ctx.check(ok, 'medoids are not distinct objects of the data')
    ctx.check(partition(clusters, n) and len(clusters) <= k, 'clusters are not a partition of the data')
    if not ok:
        return
    for cl in clusters:
        # one medoid is nearest for all objects of the cluster
        ctx.check(any_([all_([le(d2(data[i], data[m]), d2(data[i], data[o]) + TOL) for i in cl for o in med]) for m in med]), 'a cluster has an object whose nearest medoid is another one')
    for m in med:
        ctx.check(any_([all_([le(d2(data[i], data[m]), d2(data[i], data[o]) + TOL) for i in cl for o in med]) for cl in clusters]), 'a medoid has no cluster')
    best = deviation(data, med)
    for s in samples:
        if len(s) == k and len(set(s)) == k:
            ctx.check(le(best, deviation(data, s) + TOL), 'the result is worse than the initial medoids of a local search')
    if numlocal == 1 and len(samples) == 1:
        if set(samples[0]) == set(med):
            ctx.reach('kept')
        else:
            ctx.reach('swapped')
            ctx.check(lt(best, deviation(data, samples[0])), 'a medoid is replaced although the total deviation does not decrease')
    if numlocal > 1:
        ctx.reach('two searches')
    if k == n:
        ctx.reach('all medoids')
    if any(data[i] == data[j] for i in range(n) for j in range(i)):
        ctx.reach('duplicates')
    if limit is None and n - k == 1 or limit is None and k == 1 and maxneighbor >= n:
        # every replacement was tried: no single replacement is better
        for i, m in enumerate(med):
            for o in range(n):
                if o not in med and maxneighbor >= (k if n - k == 1 else k * (n - k) * 2):
                    ctx.check(ge(deviation(data, med[:i] + [o] + med[i + 1:]), best - TOL), 'the search stops although a tried replacement is better')


def tasks(tier):
    big = tier != 'quick'
    o = (None,)
    out = []

    def add(spec, k, nl, mn, limit, first=None):
        out.append(Task('h_clarans', name='n=%d dim=%d k=%d local=%d neighbors=%d %s sym=%d first=%s v%s' % (len(spec), len(spec[0]), k, nl, mn, 'turn' if limit is None else 'draws=%d' % limit, sum(x is None for p in spec for x in p), first, spec[-1][0]), max_decisions=4000, spec=spec, k=k, numlocal=nl, maxneighbor=mn, limit=limit, first=first))
    add([o, (1.,)], 1, 1, 1, 6)
    add([o, o, (1.,)], 1, 1, 1, 6)
    add([o, (0.,), (1.,)], 2, 1, 1, 6)
    add([o, (0.,), (1.,), (5.,)], 2, 1, 1, 4)
    add([o, (0.,), (0.,), (5.,)], 2, 1, 1, 4)
    add([o, (0.,), (1.,)], 2, 2, 1, 4)
    add([o, (0.,), (1.,)], 3, 1, 1, 4)
    add([(None, 0.), (1., 1.), (7., 6.)], 1, 1, 1, 4)
    for first in (0, 1, 2):
        for mn in (1, 2, 4, 8):
            add([o, (1.,)], 1, 1, mn, None, first)
            add([o, o, (1.,)], 1, 1, mn, None, first)
            add([o, (0.,), (1.,)], 2, 1, mn, None, first)
            add([o, (0.,), (1.,), (5.,)], 2, 1, mn, None, first)
            add([(0.,), (0.,), o, (5.,)], 3, 2, mn, None, first)
            if big:
                add([o, (0.,), o, (1.,), (5.,)], 2, 2, mn, None, first)
        add([(None, 0.), (1., 1.), (7., 6.), (None, 2.)], 2, 2, 2, None, first)
        add([(0.,), (3.,), o, (9.,), (20.,)], 4, 1, 4, None, first)
    if big:
        add([o, (0.,), (1.,), (5.,), (6.,)], 2, 1, 1, 6)
        add([o, o, (1.,), (5.,)], 2, 1, 1, 6)
        add([o, (0.,), (1.,), (5.,)], 2, 2, 1, 4)
    return out
