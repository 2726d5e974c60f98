import itertools
from common import *
FUNCTIONS = ['pyclustering.container.kdtree.kdtree_balanced (__create_tree, find_node, find_node_with_payload, find_nearest_dist_node, find_nearest_dist_nodes)', 'pyclustering.container.kdtree.kdtree (insert, remove, __recursive_remove, __find_minimal_node)', 'ccore kdtree (insert, remove, recursive_remove, find_minimal_node), kdtree_balanced (create_tree, find_node), kdtree_searcher (find_nearest_nodes, find_nearest_node, recursive_nearest_nodes), kdnode', 'pyclustering.utils.find_left_element, euclidean_distance_square']
BOUNDS = dict(quick='up to 5 points (1-D, symbolic; 2-D, half symbolic) in [-100,100] with possible duplicates, symbolic query point and radius; every sequence of up to 4 insertions and 2 removals of the configurations listed in tasks()', thorough='6 points, 3 removals')
REACH = ['found', 'not-found', 'removed', 'equal-points', 'hit', 'miss']


def setup():
    import pyclustering.container.kdtree


def walk(t):
    out = []
    stack = [t.get_root()] if t.get_root() is not None else []
    while stack:
        n = stack.pop()
        out.append(n)
        stack += [c for c in (n.left, n.right) if c is not None]
        if len(out) > 50:
            break
    return out


def same(a, b):
    return all_([eq(x, y) for x, y in zip(a, b)])


def audit(ctx, t, content, dim):
    """content: {payload: point}"""
    ctx.check(len(t) == len(content), 'the length of the tree is not the amount of stored points')
    nodes = walk(t)
    ok = sorted(n.payload for n in nodes) == sorted(content)
    ctx.check(ok, 'the nodes of the tree are not exactly the stored points')
    if ok:
        ctx.check(all_([same(n.data, content[n.payload]) for n in nodes]), 'a node does not hold the point that was stored with its payload')
        for n in nodes:
            for c in (n.left, n.right):
                if c is not None:
                    ctx.check(c.parent is n, 'the parent of a node is wrong')
    return ok


def query(ctx, t, content, q, r):
    """nearest-neighbour queries against a scan of all the stored points"""
    got = t.find_nearest_dist_nodes(q, r)
    pay = [g[1].payload for g in got]
    ctx.check(len(set(pay)) == len(pay) and all(p in content for p in pay), 'a query reports a point twice or a point that is not stored')
    for p, x in content.items():
        d = d2(q, x)
        if p in pay:
            ctx.reach('hit')
            ctx.check(all_([le(d, R(r) * R(r) + TOL), near(got[pay.index(p)][0], d)]), 'a query reports a point outside the radius or a wrong distance')
        else:
            ctx.reach('miss')
            ctx.check(gt(d, R(r) * R(r) - TOL), 'a query misses a point within the radius')
    n1 = t.find_nearest_dist_node(q, r)
    if n1 is None:
        ctx.check(len(pay) == 0, 'no nearest point is reported although there are points within the radius')
    else:
        ok = n1.payload in content
        ctx.check(ok and len(pay) > 0, 'a nearest point is reported that is not stored or not within the radius')
        if ok:
            d = d2(q, content[n1.payload])
            ctx.check(all_([le(d, d2(q, content[p]) + TOL) for p in pay]), 'the reported nearest point is not the nearest one')


def lookup(ctx, t, content, q, payload=None):
    n = t.find_node(q)
    if n is None:
        ctx.reach('not-found')
        ctx.check(all_([not_(same(x, q)) for x in content.values()]), 'a stored point is not found')
    else:
        ctx.reach('found')
        ctx.check(n.payload in content, 'a removed point is found')
        ctx.check(same(n.data, q), 'the found point differs from the searched one')
    if payload is not None:
        n = t.find_node_with_payload(q, payload)
        if n is None:
            ctx.check(payload not in content or not_(same(content[payload], q)), 'a stored point with its payload is not found')
        else:
            ctx.check(n.payload == payload and payload in content, 'the found payload differs from the searched one')
            ctx.check(same(n.data, q), 'the found point differs from the searched one')


def h_static(ctx, spec, radius):
    from pyclustering.container.kdtree import kdtree_balanced
    data = mixed(ctx, spec)
    dim = len(spec[0])
    content = dict(enumerate(data))
    t = kdtree_balanced(copy_points(data), list(range(len(data))))
    audit(ctx, t, content, dim)
    q = [ctx.real('q%d' % d, -100, 100) for d in range(dim)]
    what = ctx.pick('what', ['near', 'find'])
    if what == 'near':
        query(ctx, t, content, q, ctx.real('r', 0, 100) if radius is None else radius)
    else:
        lookup(ctx, t, content, q, ctx.pick('payload', list(range(len(data)))))


def h_ops(ctx, spec, start, ops, dim, radius):
    """a history of insertions and removals"""
    from pyclustering.container.kdtree import kdtree
    data = mixed(ctx, spec)
    if start:
        t = kdtree(copy_points(data[:start]), list(range(start)))
        content = {i: data[i] for i in range(start)}
    else:
        t, content = kdtree(), {}
    nxt = start
    for op in ops:
        if op == 'i':
            t.insert(list(data[nxt]), nxt)
            content[nxt] = data[nxt]
            nxt += 1
        elif op == 'r':                     # removal by the point and its payload
            if not content:
                continue
            p = ctx.pick('victim', sorted(content))
            t.remove(list(content[p]), payload=p)
            del content[p]
            ctx.reach('removed')
        elif op == 'R':                     # removal by the point only: one of the equal points goes
            if not content:
                continue
            p = ctx.pick('victim', sorted(content))
            before = dict(content)
            t.remove(list(content[p]))
            left = {n.payload for n in walk(t)}
            gone = set(before) - left
            ok = len(gone) == 1
            ctx.check(ok, 'removal of a stored point does not remove exactly one point')
            if not ok:
                return
            g = gone.pop()
            ctx.check(same(before[g], before[p]), 'a different point is removed')
            if g != p:
                ctx.reach('equal-points')
            del content[g]
        elif op == 'x':                     # removal of a point that is not stored
            q = [R(v) + 1000 for v in data[0]]
            t.remove([float(v) if not isinstance(v, SymReal) else v for v in q])
        if not audit(ctx, t, content, dim):
            return
    if not content:
        ctx.check(t.get_root() is None and t.find_nearest_dist_nodes([0.0] * dim, 10.0) == [], 'an empty tree reports points')
        return
    q = [ctx.real('q%d' % d, -100, 100) for d in range(dim)]
    if ctx.pick('what', ['near', 'find']) == 'near':
        query(ctx, t, content, q, radius)
    else:
        lookup(ctx, t, content, q, ctx.pick('payload', sorted(content)))


def h_cc(ctx, spec, start, ops, balanced=False, radius=None):
    """the C++ kd-tree: a history of insertions and removals (by point and payload), then queries"""
    data = mixed(ctx, spec)
    dim = len(spec[0])
    content = {i: data[i] for i in range(start)}
    rows, nxt = [], start
    for op in ops:
        if op == 'i':
            rows.append([0.0, float(nxt)] + list(data[nxt]))
            content[nxt] = data[nxt]
            nxt += 1
        elif content:
            p = ctx.pick('victim', sorted(content))
            rows.append([1.0, float(p)] + list(content[p]))
            del content[p]
            ctx.reach('removed')
    q = [ctx.real('q%d' % d, -100, 100) for d in range(dim)]
    r = ctx.real('r', 0, 100) if radius is None else radius
    what = ctx.pick('what', [0, 1, 2]) if content else 3
    qs = [[float(what), r] + q] if content else []
    if what == 2 and ctx.pick('stored', [True, False]):
        q = list(content[ctx.pick('which', sorted(content))])
        qs = [[2.0, r] + q]
    out = ext('verif_kdtree', data[:start], rows, qs, [[1.0 if balanced else 0.0]])
    nodes = [x for x in out if len(x) == 7]
    ctx.check(len(out) == len(nodes) + 1 + len(qs), 'C++: the tree is broken or throws an exception')
    if len(out) != len(nodes) + 1 + len(qs):
        return
    ctx.check(int(out[len(nodes)][1]) == len(content), 'C++: the size of the tree is not the amount of stored points')
    pay = sorted(int(x[0]) for x in nodes)
    ctx.check(pay == sorted(content), 'C++: the nodes of the tree are not exactly the stored points')
    ctx.check(all(int(x[6]) == 1 for x in nodes), 'C++: the parent of a node is wrong')
    if pay != sorted(content) or not qs:
        return
    res = out[-1]
    inside = {p: d2(q, x) for p, x in content.items()}
    if what == 0:
        got = ints(res[0::2])
        ctx.check(len(set(got)) == len(got) and all(p in content for p in got), 'C++: a query reports a point twice or a point that is not stored')
        for p, d in inside.items():
            if p in got:
                ctx.reach('hit')
                ctx.check(all_([le(d, R(r) * R(r) + TOL), near(res[2 * got.index(p) + 1], d)]), 'C++: a query reports a point outside the radius or a wrong distance')
            else:
                ctx.reach('miss')
                ctx.check(gt(d, R(r) * R(r) - TOL), 'C++: a query misses a point within the radius')
    elif what == 1:
        if not res:
            ctx.check(all_([gt(d, R(r) * R(r) - TOL) for d in inside.values()]), 'C++: no nearest point is reported although there are points within the radius')
        else:
            n = int(res[0])
            ctx.check(n in content, 'C++: the nearest point is not stored')
            for p, d in inside.items():
                ctx.check(any_([gt(d, R(r) * R(r) - TOL), le(inside[n], d + TOL)]), 'C++: the reported nearest point is not the nearest one')
    elif not res:
        ctx.reach('not-found')
        ctx.check(all_([not_(same(x, q)) for x in content.values()]), 'C++: a stored point is not found')
    else:
        ctx.reach('found')
        ctx.check(int(res[0]) in content and same(content[int(res[0])], q), 'C++: the found point differs from the searched one')


def tasks(tier):
    o = (None,)
    out = []
    L = [([o] * 3, None), ([o] * 4, 5.0), ([(None, 0.), (1., None), (3., 3.), (3., 1.)], 2.0), ([(None, None), (1., 1.), (1., 4.), (5., 2.)], 2.0), ([o, (0.,), (2.,), (2.,), (5.,), (7.,)], None), ([(0., None, 1.), (0., 0., 1.), (2., 2., 2.), (0., 3., 5.)], 2.0)]
    if tier != 'quick':
        L += [([o] * 5, 5.0), ([(None, None), (None, 1.), (1., 4.), (5., 2.), (1., 1.)], 2.0)]
    for spec, r in L:
        out.append(Task('h_static', name='static n=%d dim=%d free=%d r=%s' % (len(spec), len(spec[0]), sum(v is None for p in spec for v in p), r), spec=spec, radius=r))
    O = [([o] * 3, 0, 'iii', 1), ([o] * 3, 0, 'iiir', 1), ([o] * 3, 0, 'iiirr', 1), ([o] * 3, 0, 'iirix', 1), ([o] * 4, 3, 'ri', 1), ([o, (0.,), (2.,), (2.,), (5.,)], 4, 'Rri', 1),
         ([(None, 1.), (1., None), (1., 1.), (3., 0.)], 0, 'iiiir', 2), ([(None, 1.), (1., 2.), (1., 1.), (3., 0.), (0., 3.)], 3, 'irir', 2), ([(1., None), (1., 2.), (1., 1.), (1., 0.), (0., 1.)], 5, 'rR', 2), ([(2., None), (1., 2.), (3., 1.), (1., 0.), (4., 1.), (2., 2.)], 0, 'iiiiiir', 2), ([o] * 3, 3, 'rrr', 1)]
    if tier != 'quick':
        O += [([o] * 4, 0, 'iiiirr', 1), ([(None, 1.), (1., None), (1., 1.), (3., 0.), (2., 2.)], 0, 'iiiiirr', 2), ([o] * 4, 4, 'RrR', 1)]
    for spec, s, ops, dim in O:
        out.append(Task('h_ops', name='history start=%d %s dim=%d free=%d' % (s, ops, dim, sum(v is None for p in spec for v in p)), spec=spec, start=s, ops=ops, dim=dim, radius=2.0))
    C = [([o] * 3, 3, '', True), ([(None, 0.), (1., None), (3., 3.), (3., 1.)], 4, '', True), ([o, (0.,), (2.,), (2.,), (5.,), (7.,)], 6, '', True), ([o] * 3, 0, 'iiir', False), ([o, (1.,), (3.,)], 0, 'iiirr', False), ([o, o, (1.,)], 3, 'r', False),
         ([(None, 1.), (1., None), (1., 1.), (3., 0.)], 0, 'iiiir', False), ([(None, 1.), (1., 2.), (1., 1.), (3., 0.), (0., 3.)], 3, 'irir', False), ([(2., None), (1., 2.), (3., 1.), (1., 0.), (4., 1.), (2., 2.)], 0, 'iiiiiir', False), ([o, (1.,), (2.,)], 3, 'rrr', False)]
    if tier != 'quick':
        C += [([(2., None), (1., 2.), (3., 1.), (None, 0.), (4., 1.), (2., 2.)], 0, 'iiiiiirr', False), ([o] * 4, 0, 'iiiirr', False)]
    for spec, s, ops, bal in C:
        out.append(Task('h_cc', name='cc start=%d %s dim=%d free=%d' % (s, ops or 'balanced', len(spec[0]), sum(v is None for p in spec for v in p)), cc=True, spec=spec, start=s, ops=ops, balanced=bal, radius=2.0))
    return out
