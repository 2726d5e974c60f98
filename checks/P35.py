from common import *
FUNCTIONS = ['seeding of random generators by random_state in center initializers, xmeans, gmeans, elbow, silhouette_ksearch, somsc, som, genetic_algorithm', 'their wrappers and the seeding inside the C++ core']
BOUNDS = dict(quick='3..5 concrete objects, every sequence of values a generator may return after it has been seeded, random_state 0, 1, 7 and a value of 32 bits, generators in any state before', thorough='more data sets and amounts')
REACH = ['drawn', 'seed 0', 'not seeded']

SEEDS = [0, 1, 7, 4294967295]
KMAX = 2


def setup():
    import pyclustering.cluster.xmeans, pyclustering.cluster.gmeans, pyclustering.cluster.elbow, pyclustering.cluster.silhouette, pyclustering.cluster.somsc, pyclustering.nnet.som, pyclustering.cluster.ga, pyclustering.cluster.center_initializer


class seeded:
    """a generator seeded with the same value gives the same sequence; otherwise its values are unrelated"""
    def __init__(self, ctx, seed):
        from host import Holder
        self.holder, self.ctx, self.seed, self.memo = Holder, ctx, seed, {}
        self.choose, self.rnd01, self.draws, self.others = ctx.choose, ctx.rnd01, 0, 0
        ctx.choose, ctx.rnd01 = self.draw_int, self.draw_real

    def draw(self, what, fresh):
        kind, seed, n = self.holder.stream
        self.draws += 1
        if seed is None or (seed != self.seed and not (kind == 'core' and seed == self.seed % (1 << 32))):
            self.others += 1
            return fresh()
        key = (kind, n) + what
        if key not in self.memo:
            self.memo[key] = fresh()
        return self.memo[key]

    def draw_int(self, n): return self.draw(('int', n), lambda: self.choose(n))
    def draw_real(self): return self.draw(('real',), self.rnd01)

    def stop(self):
        self.ctx.__dict__.pop('choose', None)
        self.ctx.__dict__.pop('rnd01', None)


def mod(name):
    import importlib
    return importlib.import_module('pyclustering.' + name)


def run_random(d, k, s, cc):
    return [mod('cluster.center_initializer').random_center_initializer(d, k, random_state=s).initialize(return_index=True)]


def run_plusplus(d, k, s, cc):
    return [mod('cluster.center_initializer').kmeans_plusplus_initializer(d, k, 1, random_state=s).initialize(return_index=True)]


def run_xmeans(d, k, s, cc):
    x = mod('cluster.xmeans').xmeans(d, None if len(d) > 3 else [d[0]], k, 0.025, ccore=cc, random_state=s, repeat=1).process()
    return [x.get_clusters(), x.get_centers(), [x.get_total_wce()]]


def run_gmeans(d, k, s, cc):
    x = mod('cluster.gmeans').gmeans(d, 2, cc, k_max=k, repeat=1, random_state=s).process()
    return [x.get_clusters(), x.get_centers(), [x.get_total_wce()]]


def run_elbow(d, k, s, cc):
    x = mod('cluster.elbow').elbow(d, 1, 3, ccore=cc, random_state=s).process()
    return [x.get_wce(), [x.get_amount()]]


def run_elbow_random(d, k, s, cc):
    x = mod('cluster.elbow').elbow(d, 1, 3, ccore=cc, random_state=s, initializer=mod('cluster.center_initializer').random_center_initializer).process()
    return [x.get_wce(), [x.get_amount()]]


def run_silhouette(algorithm):
    def run(d, k, s, cc):
        m = mod('cluster.silhouette')
        x = m.silhouette_ksearch(d, 2, 3, algorithm=getattr(m.silhouette_ksearch_type, algorithm), ccore=cc, random_state=s).process()
        return [[x.get_amount(), x.get_score()], sorted(x.get_scores().items())]
    return run


def run_somsc(d, k, s, cc):
    x = mod('cluster.somsc').somsc(d, k, 2, cc, random_state=s).process()
    return [x.get_clusters()]


def run_som(init):
    def run(d, k, s, cc):
        m = mod('nnet.som')
        p = m.som_parameters()
        p.random_state, p.init_type = s, getattr(m.type_init, init)
        x = m.som(1, k, m.type_conn.grid_four, p, cc)
        x.train(d, 1)
        return [x.weights, x.capture_objects]
    return run


def run_ga(d, k, s, cc):
    x = mod('cluster.ga').genetic_algorithm(d, k, 2, 1, count_mutation_gens=1, random_state=s)
    best, ff = x.process()
    return [list(best), [ff], x.get_clusters()]


RUNS = dict(random=run_random, plusplus=run_plusplus, xmeans=run_xmeans, gmeans=run_gmeans, elbow=run_elbow, elbow_random=run_elbow_random, silhouette_kmeans=run_silhouette('KMEANS'), silhouette_kmedians=run_silhouette('KMEDIANS'),
            silhouette_kmedoids=run_silhouette('KMEDOIDS'), somsc=run_somsc, som_random=run_som('random'), som_centroid=run_som('random_centroid'), som_surface=run_som('random_surface'), ga=run_ga)
DATA = dict(three=[[0.0], [1.0], [5.0]], two=[[0.0], [3.0]], four=[[0.0, 0.0], [0.0, 2.0], [2.5, 0.0], [2.5, 2.0]])


def same(a, b):
    """formulas and decisions that make both results equal"""
    from numbers import Number
    if hasattr(a, 'tolist') and not isinstance(a, Number): a = a.tolist()
    if hasattr(b, 'tolist') and not isinstance(b, Number): b = b.tolist()
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return [False]
        return [f for p, q in zip(a, b) for f in same(p, q)]
    if isinstance(a, float) and a != a or isinstance(b, float) and b != b:       # no score
        return [isinstance(a, float) and a != a and isinstance(b, float) and b != b]
    return [eq(a, b)]


def h_seeded(ctx, alg, data, k, seed):
    """two runs with the same random_state give the same result whatever was drawn before and between them"""
    c = mod('cluster.center_initializer')
    other = 12345                                          # the generators were used by somebody else
    c.random.seed(other)
    c.numpy.random.seed(other)
    d = DATA[data]
    results = []
    s = seeded(ctx, seed)
    try:
        for i in range(2):
            r = RUNS[alg](copy_points(d), k, seed, ctx.cc)
            results.append(r)
            if i == 0:
                before = s.draws
    finally:
        s.stop()
    if before:
        ctx.reach('drawn')
    if seed == 0:
        ctx.reach('seed 0')
    f = same(results[0], results[1])
    ctx.obs('seeded draws only', s.others == 0)
    ctx.check(all_(f) if all(x is not False for x in f) else False, 'two runs with the same random state differ')


def h_plain(ctx, alg, data, k):
    """without a random state no generator is seeded with a fixed value"""
    c = mod('cluster.center_initializer')
    c.random.seed(None)
    c.numpy.random.seed(None)
    seen, drawn = [], {}
    for i in range(2):
        s = seeded(ctx, 'none')
        seeds, n = [], [0]

        def draw(what, fresh):
            # the second run happens to draw the same values
            seeds.append(s.holder.stream[:2])
            n[0] += 1
            key = (n[0],) + what
            if key not in drawn:
                drawn[key] = fresh()
            return drawn[key]
        s.draw = draw
        try:
            RUNS[alg](copy_points(DATA[data]), k, None, ctx.cc)
        finally:
            s.stop()
        seen.append({x for x in seeds if x[1] is not None})
    if seeds:
        ctx.reach('not seeded')
    ctx.check(not (seen[0] & seen[1]), 'a generator is seeded with a fixed value though no random state is given')


def tasks(tier):
    q = tier == 'quick'
    out = []
    for alg in RUNS:
        for cc in ([False] if alg in ('random', 'plusplus', 'ga') else [False, True]):
            for seed in SEEDS[:2 if q and alg not in ('plusplus', 'random', 'somsc') else 4]:
                if alg == 'ga' and seed > 1 << 31: continue
                out.append(Task('h_seeded', name='%s%s seed %d' % (alg, '[cc]' if cc else '', seed), cc=cc, rng=True, alg=alg, data='four' if 'silh' in alg else 'two' if alg == 'ga' else 'three' if q else 'four', k=2, seed=seed))
            out.append(Task('h_plain', name='%s%s no seed' % (alg, '[cc]' if cc else ''), cc=cc, rng=True, alg=alg, data='four' if 'silh' in alg else 'two' if alg == 'ga' else 'three', k=2))
    return out
