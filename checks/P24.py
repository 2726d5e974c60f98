import itertools
from common import *
FUNCTIONS = ['pyclustering.cluster.encoder.cluster_encoder (set_encoding, get_clusters, get_data and all six conversions)']
BOUNDS = dict(quick='2..4 objects (numbers or points of two dimensions) with symbolic coordinates in [-100,100], equal objects included; every assignment to 1..3 clusters with or without noise; every chain of up to three conversions from each of the three encodings', thorough='5 objects')
REACH = ['noise', 'duplicates', 'all noise', 'empty cluster', 'chain']
NAMES = ['CLUSTER_INDEX_LABELING', 'CLUSTER_INDEX_LIST_SEPARATION', 'CLUSTER_OBJECT_LIST_SEPARATION']


def setup():
    import pyclustering.cluster.encoder


def same(a, b):
    return all(x == y for x, y in zip(a, b)) if isinstance(a, (list, tuple)) else bool(a == b)


def content(kind, clusters, n):
    """members (indexes, or objects in the object encoding) of every cluster"""
    if kind == 0:
        lab = [None if isinstance(x, float) and x != x else int(x) for x in clusters]
        k = max([x for x in lab if x is not None], default=-1) + 1
        return [[i for i in range(len(lab)) if lab[i] == c] for c in range(k)]
    return [list(c) for c in clusters]


def h_encoder(ctx, n, dim, labels, chains):
    chain = ctx.pick('chain', chains)
    from pyclustering.cluster.encoder import cluster_encoder, type_encoding
    types = [getattr(type_encoding, x) for x in NAMES]
    data = [[ctx.real('x%d_%d' % (i, d), -100, 100) for d in range(dim)] if dim else ctx.real('x%d' % i, -100, 100) for i in range(n)]
    labels = [float('nan') if c is None else c for c in labels]
    k = max([c for c in labels if c == c], default=-1) + 1
    members = [[i for i in range(n) if labels[i] == c] for c in range(k)]
    start = {0: list(labels), 1: [list(c) for c in members], 2: [[data[i] for i in c] for c in members]}[chain[0]]
    e = cluster_encoder(types[chain[0]], start, list(data))
    exact = chain[0] != 2      # indexes are known until the objects replace them
    kind = chain[0]
    for t in chain[1:]:
        exact = exact and kind != 2
        ctx.check(e.set_encoding(types[t]) is e, 'set_encoding does not return the encoder')
        kind = t
        ctx.check(e.get_encoding == types[t], 'the encoding of the encoder is not the requested one')
        got = e.get_clusters()
        if kind == 0:
            ctx.check(len(got) == n, 'not one label per object')
        elif k > 0:
            ctx.check(len(got) == k, 'the amount of clusters is changed by the conversion')
        c = content(kind, got, n)
        ctx.check(len(c) == k or (k == 0 and not any(c)), 'the amount of clusters is changed by the conversion')
        if len(c) != k:
            return
        if kind != 2:
            flat = [int(i) for x in c for i in x]
            ctx.check(len(set(flat)) == len(flat) and all(0 <= i < n for i in flat), 'an index belongs to two clusters or does not exist')
            if len(set(flat)) != len(flat):
                return
            if exact:
                ctx.check([sorted(int(i) for i in x) for x in c] == members, 'an index is in another cluster after the conversion')
            objs = [[data[int(i)] for i in x] for x in c]
        else:
            objs = c
        ctx.obs('clusters', [[int(i) for i in x] if kind != 2 else len(x) for x in c])
        for x, m in zip(objs, members):
            ctx.check(len(x) == len(m), 'a cluster has another amount of objects after the conversion')
            if len(x) == len(m):
                free = [data[i] for i in m]
                for o in x:
                    j = next((j for j, f in enumerate(free) if same(o, f)), None)
                    ctx.check(j is not None, 'an object is in another cluster after the conversion')
                    if j is not None:
                        free.pop(j)
    ctx.check(all_([all_([eq(R(p), R(q)) for p, q in zip(a, b)]) if dim else eq(R(a), R(b)) for a, b in zip(e.get_data(), data)]), 'the data are changed by the conversion')
    if len(chain) > 2:
        ctx.reach('chain')
    if any(c != c for c in labels):
        ctx.reach('noise')
    if k == 0:
        ctx.reach('all noise')
    if any(not m for m in members):
        ctx.reach('empty cluster')
    if any(same(a, b) for i, a in enumerate(data) for b in data[:i]):
        ctx.reach('duplicates')


def tasks(tier):
    big = tier != 'quick'
    chains = [c for ln in (2, 3, 4) for c in itertools.product(range(3), repeat=ln) if ln < 3 or all(a != b for a, b in zip(c, c[1:]))]
    out = []

    def add(n, dim, labels, chains):
        out.append(Task('h_encoder', name='n=%d dim=%d labels=%s chains=%d x %d' % (n, dim, ''.join('-' if c is None else str(c) for c in labels), len(chains), len(chains[0])), n=n, dim=dim, labels=list(labels), chains=[list(c) for c in chains]))
    by = lambda *ln: [c for c in chains if len(c) in ln]
    every = [l for l in itertools.product((None, 0, 1), repeat=2)] + [(None, 0, 1), (0, None, 1), (1, 0, None), (0, 0, 1), (1, 0, 1), (0, 1, 2), (2, 0, 0), (None, None, None), (None, 1, 0)]
    for l in every:
        add(len(l), 0, l, by(2))
        if l in ((None, 0, 1), (1, 0, 1), (0, 1), (None, 0), (0, 0, 1)):
            add(len(l), 0, l, by(3))
            add(len(l), 0, l, by(4))
    for l in ((None, 0, 1), (0, 1, 0), (0, 0, 0)):
        add(3, 2, l, by(3))
    for l in ((0, 1, None, 1), (1, 1, 0, 0)):
        add(4, 0, l, [(1, 2, 0), (2, 1, 0), (0, 2, 1), (2, 0, 1)])
    if big:
        for l in ((0, 1, None, 1, 0), (1, 1, 0, 0, 2)):
            for c in chains:
                add(5, 0, l, [c])
    return out
