import math
from common import *
FUNCTIONS = ['pyclustering.cluster.hsyncnet.hsyncnet (constructor, process, __calculate_radius, __store_dynamic), syncnet._create_connections, syncnet_analyser, utils.average_neighbor_distance', 'ccore clst::hsyncnet (process, store_state, calculate_radius), clst::syncnet::create_connections, metric::average_neighbor_distance, hsyncnet_interface.cpp, hsyncnet_wrapper.py', 'pyclustering.cluster.syncsom.syncsom', 'pyclustering.nnet.syncsegm.syncsegm, syncsegm_analyser']
BOUNDS = dict(quick='hsyncnet: 1..4 points with one or two symbolic coordinates, 1..3 initial neighbors, at most three simulations before the last one, every partition into ensembles as outcome of every simulation; syncsom: 3..4 objects with symbolic coordinates on 3 neurons, every assignment of objects to neurons and every partition of the second layer; syncsegm: images of 4..6 pixels, every width, every partition of both layers into segments, symbolic noise threshold and symbolic colors', thorough='hsyncnet: 5 points; images of 6 pixels in any shape')
REACH = ['several simulations', 'beyond the neighbors', 'states', 'connected', 'not connected', 'noise', 'objects']


def setup():
    import pyclustering.cluster.hsyncnet, pyclustering.cluster.syncsom, pyclustering.nnet.syncsegm


def labelings(n):
    """partitions of n elements as lists of labels"""
    out = [[0]]
    for _ in range(n - 1):
        out = [p + [k] for p in out for k in range(max(p) + 2)]
    return out


def phases_of(lab):
    return [0.25 + 1.0 * l for l in lab]


def groups(lab):
    g = {}
    for i, l in enumerate(lab):
        g.setdefault(l, []).append(i)
    return sorted(g.values())


def average(ctx, D, n, k):
    """average distance to the k nearest neighbors"""
    total = Fraction(0)
    for i in range(n):
        row = []
        for j in range(n):
            if i != j:
                at = 0
                while at < len(row) and row[at] <= D(i, j):
                    at += 1
                row.insert(at, D(i, j))
        for v in row[:k]:
            total = total + v
    return total * Fraction(1, k * n)


def h_hsyncnet(ctx, spec, clusters, neighbors, percent, collect, limit):
    """oscillators are connected within a radius that grows until the simulated phases make no more ensembles than clusters are required; states are those of the simulations"""
    data = mixed(ctx, spec, -10, 10)
    n = len(data)
    script = []
    labs = labelings(n)
    first = [0.1 * (i + 1) for i in range(n)]
    while True:
        options = labs if len(script) < limit else [l for l in labs if max(l) < clusters]
        l = options[ctx.choose(len(options))]
        script.append(l)
        if max(l) < clusters:
            break
    table = [first] + [phases_of(l) for l in script]
    if len(script) > 1:
        ctx.reach('several simulations')
    k = min(neighbors, n - 1)
    if ctx.cc:
        r = ext('verif_hsyncnet', copy_points(data), [[float(clusters), float(k), percent, 1.0 if collect else 0.0]], table + [table[-1]] * 2)
        if not r:
            return ctx.check(False, 'hsyncnet does not end or fails')
        amount = int(r[0][0])
        links = [[[bool(x) for x in l[i * n:(i + 1) * n]] for i in range(n)] for l in r[1:1 + amount]]
        states = [s[1:] for s in r[1 + amount:]]
        times = [s[0] for s in r[1 + amount:]]
    else:
        from pyclustering.cluster.hsyncnet import hsyncnet
        from pyclustering.nnet.sync import sync_dynamic
        from pyclustering.nnet import initial_type
        net = hsyncnet(copy_points(data), clusters, initial_type.EQUIPARTITION, neighbors, percent, ccore=False)
        links = []

        class endless(Exception):
            pass

        def simulate(*_, **__):
            if len(links) >= len(script) + 2:
                raise endless()
            links.append([[bool(net.has_connection(i, j)) for j in range(n)] for i in range(n)])
            s = min(len(links), len(script))
            return sync_dynamic([table[s - 1], table[s]] if collect else [table[s]], [0, 0.1] if collect else [0.1])
        net.simulate_dynamic = simulate
        try:
            an = net.process(collect_dynamic=collect)
        except endless:
            return ctx.check(False, 'hsyncnet simulates on after the required amount of clusters is reached')
        amount, states, times = len(links), an.output, an.time
        cl = an.allocate_clusters(0.05)
        ctx.check(sorted(sorted(c) for c in cl) == groups(script[-1]), 'allocated clusters are not the ensembles of the last simulation')
    ctx.check(amount == len(script), 'hsyncnet does not stop at the first simulation with no more ensembles than clusters')
    ctx.check(len(states) == len(times) and all(times[i] < times[i + 1] for i in range(len(times) - 1)), 'there is not one growing time per state')
    want = table if collect else [table[-1]]
    ctx.reach('states')
    ctx.check(len(states) == len(want) and all(all(abs(float(x) - y) < 1e-9 for x, y in zip(s, w)) for s, w in zip(states, want)), 'states of the result are not those of the simulations')
    if amount != len(script):
        return
    cache = {}

    def D(i, j):
        q = (min(i, j), max(i, j))
        if q not in cache:
            cache[q] = dist('euc', data[q[0]], data[q[1]])
        return cache[q]
    radius = average(ctx, D, n, k) if k > 0 else Fraction(0)
    step = max(1, int(n * percent + 1e-9))
    count = k
    for s, l in enumerate(links):
        for i in range(n):
            for j in range(n):
                if i == j:
                    ctx.check(not l[i][j], 'an oscillator is connected with itself')
                elif l[i][j]:
                    ctx.reach('connected')
                    ctx.check(le(D(i, j), radius + TOL), 'objects beyond the radius are connected')
                else:
                    ctx.reach('not connected')
                    ctx.check(ge(D(i, j), radius - TOL), 'objects within the radius are not connected')
        count += step
        if count >= n:
            ctx.reach('beyond the neighbors')
            radius = radius * (1 + Fraction(percent))
        else:
            radius = average(ctx, D, n, count)


def h_clusters(ctx, spec, clusters, neighbors, draws):
    """the whole algorithm ends with a partition of the objects into at most the required amount of clusters"""
    from pyclustering.cluster.hsyncnet import hsyncnet
    from pyclustering.nnet import initial_type
    data = mixed(ctx, spec, -10, 10)
    taken = []

    def rnd01():
        taken.append(draws[len(taken) % len(draws)])
        return taken[-1]
    ctx.rnd01 = rnd01
    net = hsyncnet(copy_points(data), clusters, initial_type.RANDOM_GAUSSIAN, neighbors, 0.15, ccore=ctx.cc)
    collect = ctx.pick('collect', [False, True])
    an = net.process(0.9, collect_dynamic=collect)
    cl = [list(c) for c in an.allocate_clusters(0.1)]
    ctx.check(partition(cl, len(data)), 'clusters are not a partition of the objects')
    ctx.check(len(cl) <= clusters, 'there are more clusters than required')
    ctx.check(len(an.output) == len(an.time) and len(an.output) >= 1, 'there is not one time per state')


class fake_som:
    def __init__(self, ctx, n, neurons):
        self.size = neurons
        self.capture_objects = [[] for _ in range(neurons)]
        for i in range(n):
            self.capture_objects[ctx.choose(neurons)].append(i)
        self.awards = [len(c) for c in self.capture_objects]
        self.weights = [[10.0 * i, -7.0 * i] for i in range(neurons)]
        self.trained = []

    def train(self, data, epochs, *a, **k):
        self.trained.append((data, epochs))
        return epochs


def h_syncsom(ctx, spec, radius, neurons):
    """neurons with objects within the radius are coupled; clusters are the objects of synchronous neurons"""
    import pyclustering.cluster.syncsom as module
    data = mixed(ctx, spec, -10, 10)
    n = len(data)
    layer = fake_som(ctx, n, neurons)
    winners = [i for i in range(neurons) if layer.awards[i] > 0]
    lab = labelings(len(winners))[ctx.choose(len(labelings(len(winners))))]
    seen = {}
    from pyclustering.cluster.syncnet import syncnet, syncnet_analyser

    class scripted(syncnet):
        def process(self, *a, **k):
            seen['links'] = [[bool(self.has_connection(i, j)) for j in range(len(self))] for i in range(len(self))]
            return syncnet_analyser([phases_of(lab)], [0.0], None)
    old = module.som, module.syncnet
    module.som, module.syncnet = (lambda *a, **k: layer), scripted
    try:
        inst = module.syncsom(copy_points(data), 1, neurons, radius)
        for _ in range(ctx.pick('calls', [1, 2])):
            inst.process()
            clusters, som_clusters = inst.get_clusters(), inst.get_som_clusters()
    finally:
        module.som, module.syncnet = old
    ctx.check(len(layer.trained) >= 1, 'the map is not trained')
    links = seen['links']
    if len(links) != len(winners):
        return ctx.check(False, 'there is not one oscillator per neuron with objects')
    r2 = Fraction(radius) ** 2
    for i, a in enumerate(winners):
        for j, b in enumerate(winners):
            if i == j:
                continue
            pairs = [d2(data[p], data[q]) for p in layer.capture_objects[a] for q in layer.capture_objects[b]]
            if links[i][j]:
                ctx.reach('connected')
                ctx.check(any_([le(d, r2 + TOL) for d in pairs]), 'neurons without objects within the radius are connected')
            else:
                ctx.reach('not connected')
                ctx.check(all_([ge(d, r2 - TOL) for d in pairs]), 'neurons with objects within the radius are not connected')
    want = groups(lab)
    ctx.check(sorted(sorted(c) for c in som_clusters) == sorted(sorted(winners[i] for i in g) for g in want), 'clusters of neurons are not the ensembles of the second layer')
    ctx.check(sorted(sorted(c) for c in clusters) == sorted(sorted(o for i in g for o in layer.capture_objects[winners[i]]) for g in want), 'clusters are not the objects of synchronous neurons')
    ctx.check(partition([list(c) for c in clusters], n), 'clusters are not a partition of the objects')


def h_syncsegm(ctx, pixels, symbolic):
    """color segments are those of similar pixels, object segments those of close pixels of one color, both as indexes of pixels"""
    import pyclustering.nnet.syncsegm as module
    from pyclustering.cluster.syncnet import syncnet, syncnet_analyser
    width = ctx.pick('width', [w for w in range(1, pixels + 1) if pixels % w == 0])
    image = [[ctx.real('c%d' % i, 0, 255) if i < symbolic else 40.0 * i, 10.0, 20.0] for i in range(pixels)]
    noise = ctx.int('noise', 0, 4)
    lab = labelings(pixels)[ctx.choose(len(labelings(pixels)))]
    calls = []

    class picture:
        size = (width, pixels // width)

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *_):
            pass

    class opener:
        @staticmethod
        def open(source, *a, **k):
            return picture()

    class scripted(syncnet):
        def __init__(self, sample, radius, *a, **k):
            k['ccore'] = False
            super().__init__(sample, radius, *a, **k)
            self.sample = sample

        def process(self, *a, **k):
            links = [[bool(self.has_connection(i, j)) for j in range(len(self))] for i in range(len(self))]
            if not calls:
                l = lab
            else:
                options = labelings(len(self.sample))
                l = options[ctx.choose(len(options))]
            calls.append((self.sample, links, l))
            return syncnet_analyser([phases_of(l)], [0.0], None)
    names = [x for x in ('syncnet', 'read_image', 'Image') if hasattr(module, x)]
    if len(names) < 3:
        raise core.Unsupported('syncsegm no longer reads images by read_image and Image')
    old = module.syncnet, module.read_image, module.Image
    module.syncnet, module.read_image, module.Image = scripted, (lambda source: [list(p) for p in image]), opener
    objects = ctx.pick('objects', [True, False])
    try:
        an = module.syncsegm(60.0, 1.2 if objects else None, noise, ccore=False).process('picture')
    finally:
        module.syncnet, module.read_image, module.Image = old
    colors = groups(lab)
    sample, links, _ = calls[0]
    for i in range(pixels):
        for j in range(i):
            d = d2(image[i], image[j])
            ctx.check(le(d, 3600 + TOL) if links[i][j] else ge(d, 3600 - TOL), 'pixels are not connected by the difference of their colors')
    got = sorted(sorted(c) for c in an.allocate_colors(noise_size=0))
    ctx.check(got == colors, 'color segments are not the ensembles of the first layer')
    if not objects:
        ctx.check(len(calls) == 1 and an.allocate_objects() == [] and an.get_second_layer_analysers() is None, 'objects are searched without the radius of objects')
        return
    # segments with fewer pixels than the threshold are noise
    expected, at = [], 1
    for g in colors:
        small = bool(noise > len(g))
        if small:
            ctx.reach('noise')
            continue
        if at >= len(calls) or len(calls[at][0]) != len(g):
            return ctx.check(False, 'a color segment that is not noise is not searched for objects')
        sample, links, l = calls[at]
        at += 1
        ctx.check([[float(v) for v in p] for p in sample] == [[float(i % width), float(i // width)] for i in g], 'coordinates of pixels are not their column and row')
        ctx.check(all(links[a][b] == (a != b and (g[a] % width - g[b] % width) ** 2 + (g[a] // width - g[b] // width) ** 2 <= 1) for a in range(len(g)) for b in range(len(g))), 'pixels of a segment are not connected by their distance')
        expected += [sorted(g[i] for i in s) for s in groups(l)]
        ctx.reach('objects')
    ctx.check(at == len(calls), 'noise is searched for objects')
    got = sorted(sorted(c) for c in an.allocate_objects(noise_size=0))
    ctx.check(got == sorted(expected), 'object segments are not the pixels of the ensembles of the second layer')
    limit = ctx.int('limit', 1, 4)
    for what, all_segments, kept in (('color', colors, an.allocate_colors(noise_size=limit)), ('object', sorted(expected), an.allocate_objects(noise_size=limit))):
        kept = [sorted(c) for c in kept]
        for s in all_segments:
            if limit > len(s):
                ctx.check(s not in kept, 'a %s segment below the noise threshold is reported' % what)
            elif limit < len(s):
                ctx.check(kept.count(s) == 1, 'a %s segment above the noise threshold is lost' % what)
        ctx.check(all(s in all_segments for s in kept), 'a %s segment is changed by the noise threshold' % what)


N = None


def tasks(tier):
    t = []
    big = tier == 'thorough'
    for cc in (False, True):
        s = 'cc' if cc else 'py'
        for collect in (False, True):
            t.append(Task('h_hsyncnet', '%s n2 collect=%d' % (s, collect), cc=cc, spec=[[N], [1]], clusters=1, neighbors=1, percent=0.15, collect=collect, limit=2))
            t.append(Task('h_hsyncnet', '%s n3 k1 collect=%d' % (s, collect), cc=cc, spec=[[N], [0], [4]], clusters=1, neighbors=1, percent=0.15, collect=collect, limit=2 if not collect else 1))
        t.append(Task('h_hsyncnet', '%s n1' % s, cc=cc, spec=[[N]], clusters=1, neighbors=3, percent=0.15, collect=False, limit=1))
        t.append(Task('h_hsyncnet', '%s n3 k2 c2' % s, cc=cc, spec=[[N], [N], [4]], clusters=2, neighbors=2, percent=0.7, collect=True, limit=2))
        t.append(Task('h_hsyncnet', '%s n3 c3' % s, cc=cc, spec=[[N], [0], [4]], clusters=3, neighbors=1, percent=0.7, collect=True, limit=1))
        t.append(Task('h_hsyncnet', '%s n4 k1' % s, cc=cc, spec=[[N], [0], [3], [7]], clusters=2, neighbors=1, percent=0.5, collect=False, limit=1))
        t.append(Task('h_hsyncnet', '%s n4 k1 slow' % s, cc=cc, spec=[[0], [1], [N], [6]], clusters=3, neighbors=1, percent=0.25, collect=False, limit=3 if big else 2))
        t.append(Task('h_hsyncnet', '%s n3 2d' % s, cc=cc, spec=[[N, 1], [0, 0], [3, 4]], clusters=1, neighbors=1, percent=0.15, collect=False, limit=1))
        t.append(Task('h_clusters', '%s clusters n2' % s, cc=cc, spec=[[N], [1]], clusters=1, neighbors=1, draws=[0.25, 0.5, 0.251, 0.5]))
        t.append(Task('h_clusters', '%s clusters n1' % s, cc=cc, spec=[[N]], clusters=1, neighbors=3, draws=[0.25, 0.5]))
        t.append(Task('h_clusters', '%s clusters n3 c2' % s, cc=cc, spec=[[N], [0], [4]], clusters=2, neighbors=3, draws=[0.25, 0.5, 0.251, 0.5, 0.2505, 0.5]))
        t.append(Task('h_clusters', '%s clusters n2 c3' % s, cc=cc, spec=[[N], [4]], clusters=3, neighbors=3, draws=[0.25, 0.5, 0.251, 0.5]))
        t.append(Task('h_clusters', '%s clusters n2 low order' % s, cc=cc, spec=[[N], [1]], clusters=1, neighbors=1, draws=[0.25, 0.5, 0.26, 0.5], max_decisions=3000))
        if big:
            t.append(Task('h_hsyncnet', '%s n5' % s, cc=cc, spec=[[N], [0], [3], [7], [12]], clusters=3, neighbors=2, percent=0.2, collect=False, limit=1))
            t.append(Task('h_hsyncnet', '%s n4 two' % s, cc=cc, spec=[[N], [N], [3], [7]], clusters=2, neighbors=1, percent=0.25, collect=True, limit=1))
    t.append(Task('h_syncsom', 'syncsom 3', spec=[[N, 0], [1, 2], [N, 3]], radius=2.5, neurons=2))
    t.append(Task('h_syncsom', 'syncsom 3 on 3', spec=[[N], [1], [3]], radius=0.75, neurons=3))
    t.append(Task('h_syncsom', 'syncsom 4', spec=[[N], [1], [3], [6]], radius=1.5, neurons=2 if not big else 3))
    t.append(Task('h_syncsegm', 'syncsegm 4', pixels=4, symbolic=1))
    t.append(Task('h_syncsegm', 'syncsegm 3', pixels=3, symbolic=2))
    if big:
        t.append(Task('h_syncsegm', 'syncsegm 6', pixels=6, symbolic=1))
    return t
