import math
from common import *
FUNCTIONS = ['pyclustering.cluster.ga.genetic_algorithm (process, selection, crossover, mutation, fitness, clusters), ga_observer', 'pyclustering.cluster.ga_maths.ga_math']
BOUNDS = dict(quick='3..4 objects of 1..2 dimensions, 1..3 clusters, 2..3 chromosomes, 0..2 generations; every population for 2 chromosomes of 2 objects, otherwise fixed first populations followed by every draw of one generation or by draws in turn; two symbolic coordinates', thorough='the same with more symbolic coordinates and free draws over 2 generations')
REACH = ['improved', 'kept', 'mutated', 'crossed', 'empty cluster', 'drawn']


def setup():
    import pyclustering.cluster.ga


def fitness(data, chromosome, k):
    """sum of the Manhattan distances to the means of the clusters"""
    s = Fraction(0)
    for c in range(k):
        part = [i for i, g in enumerate(chromosome) if g == c]
        if part:
            m = mean_of(data, part)
            for i in part:
                for d in range(len(m)):
                    s = s + abs_(R(data[i][d]) - m[d])
    return s


class fixed_draws:
    """first draws are those of the initial population, the others are free (up to a limit) or taken in turn"""
    def __init__(self, ctx, first, free, start=0):
        self.old, self.first, self.free, self.n, self.seq, self.taken, self.start = ctx.choose, [g for c in first or () for g in c], free, 0, {}, [], start
        ctx.choose = self

    def __call__(self, m):
        self.n += 1
        if self.n <= len(self.first):
            v = self.first[self.n - 1]
        elif self.free is None or self.n - len(self.first) <= self.free:
            v = self.old(m)
        else:
            self.seq[m] = self.seq.get(m, self.start - 1) + 1
            v = self.seq[m] % m
        return v


def h_ga(ctx, spec, k, first, chromosomes, generations, mutated, rate, select, free=None, start=0):
    """the result is the best chromosome of all generations and its reported fitness is the documented one"""
    from pyclustering.cluster.ga import genetic_algorithm, ga_observer
    data = mixed(ctx, spec, -20, 20)
    n = len(data)
    fixed_draws(ctx, first, free, start)
    if generations > 1:
        state = [start]

        def rnd01():
            state[0] += 1
            return (0.1, 0.6, 0.9, 0.4, 0.75)[state[0] % 5]
        ctx.rnd01 = rnd01
    obs = ga_observer(True, True, True)
    try:
        g = genetic_algorithm(copy_points(data), k, chromosomes, generations, count_mutation_gens=mutated, coeff_mutation_count=rate, select_coeff=select, observer=obs)
        best, ff = g.process()
        clusters = [ints(c) for c in g.get_clusters()]
    finally:
        del ctx.choose
    best = ints(best)
    ctx.obs('best', best)
    ctx.check(len(best) == n and all(0 <= x < k for x in best), 'the best chromosome does not assign every object to a cluster')
    if len(best) != n or not all(0 <= x < k for x in best):
        return
    ctx.check(near(ff, fitness(data, best, k)), 'the reported fitness is not the sum of the Manhattan distances to the means of the clusters')
    ctx.check(clusters == [[i for i in range(n) if best[i] == c] for c in range(k)], 'the clusters are not those of the best chromosome')
    if [] in clusters:
        ctx.reach('empty cluster')
    G, P, M = obs.get_global_best(), obs.get_population_best(), obs.get_mean_fitness_function()
    ok = len(obs) == generations + 1 and all(len(x[y]) == generations + 1 for x in (G, P) for y in ('chromosome', 'fitness_function')) and len(M) == generations + 1
    ctx.check(ok, 'not one observation per generation')
    if not ok:
        return
    gb, pb = [R(x) for x in G['fitness_function']], [R(x) for x in P['fitness_function']]
    gc, pc = [ints(c) for c in G['chromosome']], [ints(c) for c in P['chromosome']]
    for i in range(generations + 1):
        ctx.check(near(pb[i], fitness(data, pc[i], k)), 'the best fitness of a population is not that of its chromosome')
        ctx.check(near(gb[i], fitness(data, gc[i], k)), 'the best fitness of all populations is not that of its chromosome')
        ctx.check(all_([le(gb[i], x) for x in pb[:i + 1]] + [any_([near(gb[i], x) for x in pb[:i + 1]])]), 'the best of all populations is not the best seen so far')
        ctx.check(le(pb[i], R(M[i]) + TOL), 'the mean fitness is better than the best')
    ctx.check(all_([best == gc[-1], near(ff, gb[-1])]), 'the result is not the best chromosome of all populations')
    if first is not None:
        ctx.check(all_([le(pb[0], fitness(data, c, k) + TOL) for c in first]), 'the best chromosome of the first population is not its best one')
        ctx.check(near(M[0], sum((fitness(data, c, k) for c in first), Fraction(0)) * Fraction(1, len(first))), 'the mean fitness is not the average of the population')
        if int(chromosomes * rate) == 0 or mutated == 0:
            for c in pc:
                ctx.check(all(any(c[j] == f[j] for f in first) for j in range(n)), 'a gene appears that no chromosome had at its position although nothing is mutated')
            if any(c not in [list(f) for f in first] for c in pc):
                ctx.reach('crossed')
        elif generations == 1:
            # an object changes its cluster in at most `mutated` genes of one chromosome
            x = sum(all(pc[1][j] != f[j] for f in first) for j in range(n))
            ctx.check(x <= mutated, 'more genes are mutated than requested')
            if x:
                ctx.reach('mutated')
    if generations:
        ctx.reach('improved' if best != gc[0] else 'kept')


def h_population(ctx, spec, k, chromosomes):
    """without generations the result is the best of the random population"""
    return h_ga(ctx, spec, k, None, chromosomes, 0, 1, 0.5, 1.0)


def h_maths(ctx, n, zero):
    """probabilities are inverse to the fitness and the drawn index is the one whose interval holds the drawn number"""
    from pyclustering.cluster.ga_maths import ga_math
    import numpy
    f = [ctx.real('f%d' % i, 0, 10) for i in range(n)]
    for i, x in enumerate(f):
        ctx.assume(eq(R(x), 0) if zero == i else ge(R(x), Fraction(1, 10)))
    r = ctx.real('r', 0, 1)
    ctx.assume(lt(R(r), 1))
    p = ga_math.calc_probability_vector(numpy.array(f))
    p = [R(x) for x in p]
    inv = [Fraction(0) if zero == i else 1 / R(x) for i, x in enumerate(f)]
    total = sum(inv, Fraction(0))
    ctx.check(len(p) == n and all_([near(p[i] * total, sum(inv[:i + 1], Fraction(0))) for i in range(n)]), 'probabilities are not inverse to the fitness')
    ctx.rnd01 = lambda: r
    q = [ctx.real('q%d' % i, 0, 1) for i in range(n - 1)] + [1.0]
    for a, b in zip(q, q[1:]):
        ctx.assume(le(R(a), R(b)))
    i = ga_math.get_uniform(numpy.array(q))
    del ctx.rnd01
    ctx.check(i is not None, 'no index is drawn')
    if i is not None:
        ctx.reach('drawn')
        ctx.check(all_([lt(R(r), R(q[i]))] + [ge(R(r), R(x)) for x in q[:i]]), 'the drawn index is not the one whose interval holds the number')


def h_centers(ctx, spec, k):
    """centers are means, clusters are the groups of equal genes"""
    from pyclustering.cluster.ga_maths import ga_math
    import numpy
    data = mixed(ctx, spec)
    ch = [[ctx.choose(k) for _ in data] for _ in range(2)]
    c = ga_math.calc_centers(numpy.array(ch), numpy.array(copy_points(data)), k)
    for x in range(2):
        for j in range(k):
            part = [i for i in range(len(data)) if ch[x][i] == j]
            ctx.check(same_point(c[x][j], mean_of(data, part)) if part else all_([eq(R(v), 0) for v in c[x][j]]), 'a center is not the mean of its cluster')
    r = ga_math.get_clusters_representation(numpy.array(ch[0]))
    m = max(ch[0]) + 1
    ctx.check(ints(sum(r, [])) == [i for j in range(m) for i in range(len(data)) if ch[0][i] == j] and len(r) == m, 'clusters are not the groups of equal genes')


def tasks(tier):
    q = tier == 'quick'
    o = None
    out = []
    F3 = [[0, 1, 0], [1, 1, 0]]
    F4 = [[0, 1, 0, 1], [1, 1, 0, 0], [0, 0, 0, 1]]
    out.append(Task('h_population', name='first population', rng=True, spec=[[o], [1.0]], k=2, chromosomes=2))
    out.append(Task('h_population', name='first population k=1', rng=True, spec=[[o, 0.0], [1.0, o], [3.0, 3.0]], k=1, chromosomes=2))
    for mut, rate in ((1, 0.5), (2, 0.25)):
        out.append(Task('h_ga', name='one generation mutations=%d*%s' % (mut, rate), rng=True, max_decisions=4000, spec=[[o], [0.0], [3.0]], k=2, first=F3, chromosomes=2, generations=1, mutated=mut, rate=rate, select=0.0))
    out.append(Task('h_ga', name='one generation selection', rng=True, spec=[[o], [0.0], [3.0]], k=2, first=F3, chromosomes=2, generations=1, mutated=1, rate=0.5, select=1.0, free=1))
    for start in (0, 1, 2, 3):
        for rate in (0.4, 0.0):
            out.append(Task('h_ga', name='two generations mutations=%s start=%d' % (rate, start), rng=True, max_decisions=4000, spec=[[o, 0.0], [0.0, 1.0], [3.0, 2.0], [2.0, 0.0 if q else o]], k=2, first=F4, chromosomes=3, generations=2, mutated=2, rate=rate, select=0.0, free=2 if q else 6, start=start))
        out.append(Task('h_ga', name='two generations k=3 start=%d' % start, rng=True, max_decisions=4000, spec=[[o], [0.0], [3.0]], k=3, first=F3, chromosomes=2, generations=2, mutated=1, rate=1.0, select=0.0, free=2 if q else 6, start=start))
    for z in (None, 0, 2):
        out.append(Task('h_maths', name='probabilities zero=%s' % z, rng=True, n=3, zero=z, elim=True))
    out.append(Task('h_centers', name='centers', rng=True, spec=[[o, 1.0], [2.0, o], [5.0, 7.0]], k=2))
    return out
