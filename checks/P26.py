import math
from common import *
FUNCTIONS = ['pyclustering.nnet.network (structures all-to-all, none, list, grids, dynamic; matrix and list representation; has_connection, set_connection, get_neighbors)',
             'ccore adjacency_connector (every structure, rectangular grids), adjacency_bit_matrix, adjacency_matrix, adjacency_list, adjacency_weight_list (set, erase, has, weights, get_neighbors, clear)']
BOUNDS = dict(quick='networks of 1..16 oscillators (grids 1x1..4x4, one dimension up to 5), every pair of oscillators; sequences of up to 4 operations with symbolic indexes (3 nodes) and weights in [-100,100] on every container; bit matrix also with 66 nodes and a symbolic node around the word border', thorough='5 operations, larger grids')
REACH = ['grid', 'dynamic', 'erased', 'zero weight', 'repeated', 'word border']
KINDS = ['NONE', 'ALL_TO_ALL', 'GRID_FOUR', 'GRID_EIGHT', 'LIST_BIDIR']


def setup():
    import pyclustering.nnet, pyclustering.core.wrapper


def linked(kind, n, h, w, i, j):
    """documented structure"""
    if i == j or kind in ('NONE', 'DYNAMIC'):
        return False
    if kind == 'ALL_TO_ALL':
        return True
    if kind == 'LIST_BIDIR':
        return abs(i - j) == 1
    (a, b), (c, d) = divmod(i, w), divmod(j, w)
    return abs(a - c) + abs(b - d) == 1 or kind == 'GRID_EIGHT' and max(abs(a - c), abs(b - d)) == 1


def ceil_row(w, i, j):
    """the left-right neighbourhood of the listed finding"""
    return abs(i - j) == 1 and math.ceil(i / w) == math.ceil(j / w)


def h_network(ctx, cases):
    from pyclustering.nnet import network, conn_type, conn_represent
    kind, n, h, w = ctx.pick('case', cases)
    rep = ctx.pick('rep', ['MATRIX', 'LIST'])
    net = network(n, getattr(conn_type, kind), getattr(conn_represent, rep), h, w)
    ctx.check(len(net) == n and net.structure == getattr(conn_type, kind), 'size or structure of the network is not the requested one')
    if 'GRID' in kind:
        ctx.reach('grid')
        if h is None:
            h = w = int(round(n ** 0.5))
        ctx.check(net.height == h and net.width == w, 'the grid has another size')
    i, j = int(ctx.int('i', 0, n - 1)), int(ctx.int('j', 0, n - 1))
    got = bool(net.has_connection(i, j))
    nb = ints(net.get_neighbors(i))
    ctx.obs('has', got)
    ok = got == linked(kind, n, h, w, i, j)
    finding = 'GRID' in kind and w > 1 and abs(i - j) == 1 and ceil_row(w, i, j) == got
    ctx.check(ok, 'the connection between two oscillators does not follow the structure', known=('P26-python-grid-row', bool(finding)))
    ctx.check(sorted(set(nb)) == [x for x in range(n) if net.has_connection(i, x)], 'the neighbors of an oscillator are not the connected ones')
    if not finding:
        ctx.check(len(set(nb)) == len(nb), 'a neighbor is listed twice', known=('P26-python-grid-row', 'GRID_EIGHT' in kind and rep == 'LIST' and w > 1 and any(ceil_row(w, i, x) and not linked(kind, n, h, w, i, x) or nb.count(x) > 1 and ceil_row(w, i, x) for x in range(n))))


def h_dynamic(ctx, n, k):
    """connections of a dynamic network are exactly those that were set, in both directions"""
    from pyclustering.nnet import network, conn_type, conn_represent
    rep = ctx.pick('rep', ['MATRIX', 'LIST'])
    net = network(n, conn_type.DYNAMIC, getattr(conn_represent, rep))
    want = set()
    for s in range(k):
        i, j = int(ctx.int('i%d' % s, 0, n - 1)), int(ctx.int('j%d' % s, 0, n - 1))
        if (i, j) in want:
            ctx.reach('repeated')
        net.set_connection(i, j)
        want |= {(i, j), (j, i)}
    ctx.reach('dynamic')
    for a in range(n):
        ctx.check([bool(net.has_connection(a, b)) for b in range(n)] == [(a, b) in want for b in range(n)], 'connections are not those that were set')
        ctx.check(sorted(ints(net.get_neighbors(a))) == [b for b in range(n) if (a, b) in want], 'neighbors are not the connected oscillators')


def raises(f):
    try:
        f()
    except (NameError, ValueError, RuntimeError, IndexError):
        return True
    return False


def h_refused(ctx):
    """a grid of impossible size, and a connection of a static network, are refused"""
    from pyclustering.nnet import network, conn_type
    kind = ctx.pick('kind', ['GRID_FOUR', 'GRID_EIGHT'])
    n = int(ctx.int('n', 1, 10))
    ctx.check(raises(lambda: network(n, getattr(conn_type, kind))) == (n not in (1, 4, 9)), 'a grid that is not square is accepted, or a square one is refused')
    h, w = int(ctx.int('h', 1, 4)), int(ctx.int('w', 1, 4))
    ctx.check(raises(lambda: network(n, getattr(conn_type, kind), height=h, width=w)) == (h * w != n), 'a grid of a wrong size is accepted, or a right one is refused')
    other = ctx.pick('other', KINDS)
    net = network(4, getattr(conn_type, other))
    ctx.check(raises(lambda: net.set_connection(0, 1)), 'a connection of a static network is changed')


def check_container(ctx, r, n, weights, kind):
    """weights: expected {(i, j): weight or None for any non-zero one}"""
    ctx.check(len(r) == 1 + 3 * n and int(R(r[0][0])) == n, 'wrong size of the collection')
    if len(r) != 1 + 3 * n:
        return
    for i in range(n):
        has, nb, ws = r[1 + 3 * i:4 + 3 * i]
        want = [1 if (i, j) in weights else 0 for j in range(n)]
        ctx.check(ints(has) == want, 'a connection is not the one that was set')
        ctx.check(sorted(ints(nb)) == [j for j in range(n) if want[j]], 'neighbors are not the connected nodes')
        for j, v in enumerate(ws):
            e = weights.get((i, j), 0)
            ctx.check(ne(R(v), 0) if e is None else eq(R(v), R(e)), 'a connection has another weight')


def h_structure(ctx, cases):
    kind, n, h, w = ctx.pick('case', cases)
    c = ctx.pick('container', [0, 1, 2, 3])
    r = ext('verif_adjacency', [[4.0]], [[c, n, KINDS.index(kind), w or 0, h or 0]])
    if h is None:
        h = w = int(round(n ** 0.5))
    if 'GRID' in kind:
        ctx.reach('grid')
    check_container(ctx, r, n, {(i, j): None for i in range(n) for j in range(n) if linked(kind, n, h, w, i, j)}, c)


def h_ops(ctx, container, n, kinds, fixed=()):
    """a sequence of operations with arbitrary indexes and weights"""
    ops, want = [], {}
    for s, k in enumerate(kinds):
        i, j = (ctx.int('i%d' % s, 0, n - 1), ctx.int('j%d' % s, 0, n - 1)) if n < 10 else (0, ctx.int('j%d' % s, 62, n - 1))
        row = [k, i, j]
        i, j = int(i), int(j)
        if n > 10 and j > 63:
            ctx.reach('word border')
        if k == 2:
            v = ctx.real('w%d' % s, -100, 100)
            row.append(v)
            if R(v) == 0:
                ctx.reach('zero weight')
                want.pop((i, j), None)
            else:
                want[i, j] = v
        elif k == 0:
            # the weight of a connection that is set again is not specified
            want[i, j] = None if (i, j) in want else 1
        else:
            if (i, j) in want:
                ctx.reach('erased')
            want.pop((i, j), None)
        ops.append([k, float(i), float(j)] + row[3:])
    r = ext('verif_adjacency', ops, [[container, n, -1, 0, 0]])
    check_container(ctx, r, n, want, container)


def h_bad_grid(ctx):
    kind = ctx.pick('kind', ['GRID_FOUR', 'GRID_EIGHT'])
    n, h, w = int(ctx.int('n', 1, 10)), int(ctx.int('h', 1, 4)), int(ctx.int('w', 1, 4))
    r = ext('verif_adjacency', [[4.0]], [[1, n, KINDS.index(kind), w, h]])
    ctx.check((len(r) == 1 and R(r[0][0]) == -1) == (n != h * w), 'a grid of a wrong size is accepted, or a right one is refused')
    r = ext('verif_adjacency', [[4.0]], [[1, n, KINDS.index(kind), 0, 0]])
    ctx.check((len(r) == 1 and R(r[0][0]) == -1) == (n not in (1, 4, 9)), 'a grid that is not square is accepted, or a square one is refused')


def tasks(tier):
    out = []
    top = 4 if tier == 'quick' else 6
    for kind in KINDS:
        if 'GRID' in kind:
            cs = [(kind, h * w, h, w) for h in range(1, top + 1) for w in range(1, top + 1)] + [(kind, n, None, None) for n in (1, 4, 9)]
        else:
            cs = [(kind, n, None, None) for n in (1, 2, 3, 5)]
        out.append(Task('h_network', name='network %s' % kind, cases=cs))
        out.append(Task('h_structure', name='core %s' % kind, cc=True, cases=cs))
    out.append(Task('h_dynamic', name='dynamic', n=3, k=2))
    out.append(Task('h_refused'))
    out.append(Task('h_bad_grid', cc=True))
    for c in range(4):
        for seq in ([0, 1], [0, 0, 1], [1, 0]) + (([2, 0], [2, 2], [0, 2], [2, 1], [0, 1, 2]) if c in (1, 3) else ()):
            out.append(Task('h_ops', name='container %d operations %s' % (c, seq), cc=True, container=c, n=2 if len(seq) > 2 else 3, kinds=seq))
    out.append(Task('h_ops', name='bit matrix 66 nodes', cc=True, container=0, n=66, kinds=[0, 0, 1]))
    return out
