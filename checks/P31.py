from common import *
FUNCTIONS = ['ccore differential::runge_kutta_4, runge_kutta_fehlberg_45, factor, differ_state']
BOUNDS = dict(quick='systems y\' = (a + b t) y + c0 + c1 t + c2 t^2 + c3 t^3, z\' = g y with symbolic coefficients in [-1,1], symbolic initial values and length of a step; 1..3 steps of Runge-Kutta 4; up to 12 adaptive steps of Runge-Kutta-Fehlberg with three tolerances', thorough='the same with more symbolic coefficients at once')
REACH = ['one step', 'collected', 'adaptive']


def setup():
    import pyclustering.core.wrapper


def taylor(k, t, y, z, h):
    """expansion of the exact solution up to the fourth power of h"""
    a, b, g, c = k[0], k[1], k[2], k[3:]
    u = a + b * t
    p = [c[0] + c[1] * t + c[2] * t * t + c[3] * t * t * t, c[1] + 2 * c[2] * t + 3 * c[3] * t * t, 2 * c[2] + 6 * c[3] * t, 6 * c[3]]
    d = [y]
    for i in range(4):
        v = u * d[i] + p[i]
        if i:
            v = v + i * b * d[i - 1]
        d.append(v)
    e = [z] + [g * v for v in d[:4]]
    r = []
    for q in (d, e):
        s, f, hp = Fraction(0), 1, Fraction(1)
        for i in range(5):
            s = s + q[i] * hp * Fraction(1, f)
            hp = hp * h
            f *= i + 1
        r.append(s)
    return r


def low(x, h):
    """terms of a polynomial below the fifth power of h; a number for replays"""
    if not isinstance(x, core.SymReal) or not isinstance(h, core.SymReal):
        return None
    (v,), = h.p.keys()
    return core.SymReal({m: c for m, c in x.p.items() if m.count(v) < 5})


def close(x, h):
    l = low(x, h)
    if l is None:
        return bool(abs(x) <= TOL + abs(h) ** 5 / 10)
    return near(l, 0)


def system(ctx, sym):
    """coefficients and initial values; those not in sym are fixed"""
    fixed = dict(a=0.5, b=-0.25, g=0.75, c0=0.25, c1=-0.5, c2=1.0, c3=0.5, y=1.25, z=-0.5, t=0.5)
    return {n: ctx.real(n, -1, 1) if n in sym else v for n, v in fixed.items()}


def h_order(ctx, sym, steps, collect):
    """every step agrees with the exact solution up to the fourth power of its length"""
    v = system(ctx, sym)
    h = ctx.real('h', 0.05, 0.1)
    k = [R(v[n]) for n in ('a', 'b', 'g', 'c0', 'c1', 'c2', 'c3')]
    t, y, z = R(v['t']), R(v['y']), R(v['z'])
    r = ext('verif_differential', [[0, v['t'], v['t'] + h * steps, steps, 1.0 if collect else 0.0], [v['y'], v['z']], [v[n] for n in ('a', 'b', 'g', 'c0', 'c1', 'c2', 'c3')]])
    r = [[R(ctx.unbox(x)) for x in row] for row in r]
    m = steps if collect else 1
    ctx.check(len(r) == m, 'not one output per step')
    if len(r) != m:
        return
    ctx.reach('collected' if collect else 'one step')
    h = R(h)
    for i, row in enumerate(r):
        n = i + 1 if collect else steps
        ctx.check(near(row[0], t + h * n), 'wrong time of an output')
    if not collect and steps > 1:
        return
    for i, row in enumerate(r):
        ey, ez = taylor(k, t + h * i, y, z, h)
        ctx.check(close(row[1] - ey, h), 'solution of a linear equation has not the fourth order')
        ctx.check(close(row[2] - ez, h), 'solution of a chained equation has not the fourth order')
        y, z = row[1], row[2]
        if i + 1 < len(r) and isinstance(y, core.SymReal):
            # the next step starts from what this one returned
            break


def h_last(ctx, sym, steps):
    """what is collected does not change the last state"""
    v = system(ctx, sym)
    a = [[v['y'], v['z']], [v[n] for n in ('a', 'b', 'g', 'c0', 'c1', 'c2', 'c3')]]
    x = ext('verif_differential', [[0, v['t'], 2.0, steps, 1.0]] + a)
    y = ext('verif_differential', [[0, v['t'], 2.0, steps, 0.0]] + a)
    x, y = [[R(ctx.unbox(e)) for e in r] for r in x], [[R(ctx.unbox(e)) for e in r] for r in y]
    ctx.check(len(x) == steps and len(y) == 1, 'not one output per step')
    ctx.check(all_([near(p, q) for p, q in zip(x[-1], y[-1])]), 'the last state depends on what is collected')
    # the step of a system that is started where the previous step ended is the next step
    h = (2.0 - v['t']) / steps
    for i in range(1, steps):
        w = ext('verif_differential', [[0, v['t'] + h * i, v['t'] + h * (i + 1), 1, 0.0], [ctx.unbox(e) if ctx.cc and not isinstance(e, Fraction) else float(e) for e in x[i - 1][1:]], a[1]])
        ctx.check(all_([near(R(ctx.unbox(p)), q) for p, q in zip(w[0], x[i])]), 'a step does not start from the state the previous one ended in')


def h_fehlberg(ctx, sym, tol, end, collect, coef, slack):
    """adaptive steps end at the end of the interval and stay close to the exact solution"""
    names = ('a', 'b', 'g', 'c0', 'c1', 'c2', 'c3')
    v = dict(zip(names, coef), y=1.25, z=-0.5, t=0.5)
    for n in sym:
        v[n] = ctx.real(n, -1, 1)
    r = ext('verif_differential', [[1, 0.5, end, tol, 1.0 if collect else 0.0], [v['y'], v['z']], [v[n] for n in names]])
    r = [[R(ctx.unbox(x)) for x in row] for row in r]
    ctx.check(len(r) >= 1, 'nothing is returned')
    if not r:
        return
    ctx.reach('adaptive')
    ctx.check(near(r[-1][0], Fraction(end)), 'the last output is not at the end of the interval')
    ctx.check(collect or len(r) == 1, 'outputs are collected without a request')
    c = [R(v[n]) for n in names[3:]]
    if v['a'] != 0 or v['b'] != 0:
        # y' = a y, z' = g y: the exact solution is an exponent
        a = float(v['a'])
        for t, y, z in r:
            e = Fraction(math.exp(a * (float(t) - 0.5)))
            ctx.check(near(y, R(v['y']) * e, Fraction(slack)), 'solution of an exponential equation is too far from the exact one')
            ctx.check(near(z, R(v['z']) + R(v['g']) * R(v['y']) * (e - 1) * Fraction(1 / a), Fraction(slack)), 'solution of a chained equation is too far from the exact one')
    else:
        prev = Fraction(0.5)
        for t, y, z in r:
            ctx.check(t > prev, 'time does not increase')
            prev = t

            def prim(x):
                return sum(c[i] * x ** (i + 1) * Fraction(1, i + 1) for i in range(4))
            ctx.check(near(y, R(v['y']) + prim(t) - prim(Fraction(1, 2)), Fraction(1, 10 ** 6)), 'a polynomial of the third degree is not integrated exactly')


import math


def tasks(tier):
    q = tier == 'quick'
    out = []
    for sym in (['a', 'b', 'y'], ['a', 'g', 'z', 'c0'], ['b', 'c1', 'c2', 'c3'], ['a', 'c2'], ['b', 'c1', 't']) + (() if q else (['a', 'b', 'c0', 'c1', 'y'],)):
        out.append(Task('h_order', name='order ' + ','.join(sym), cc=True, sym=sym, steps=1, collect=True))
    out.append(Task('h_order', name='order not collected', cc=True, sym=['a', 'y'], steps=1, collect=False))
    out.append(Task('h_order', name='time steps=3', cc=True, sym=['t', 'c0'], steps=3, collect=True))
    out.append(Task('h_last', name='last state', cc=True, sym=['y', 'z', 'c0', 'c1'], steps=3))
    for tol in (1e-5, 0.1):
        for end in (1.0, 3.0):
            for collect in (True, False):
                out.append(Task('h_fehlberg', name='fehlberg polynomial tol=%s end=%s collect=%s' % (tol, end, collect), cc=True, sym=['c0', 'y'], tol=tol, end=end, collect=collect, coef=[0, 0, 0, 0, -0.5, 1.0, 0.5], slack=0))
    for a, tol, end, slack in ((0.75, 1e-5, 1.5, 1e-4), (-2.0, 1e-3, 2.5, 1e-2), (1.5, 1e-7, 2.5, 1e-4)):
        out.append(Task('h_fehlberg', name='fehlberg exponential a=%s tol=%s' % (a, tol), cc=True, sym=['z'], tol=tol, end=end, collect=True, coef=[a, 0, 0.75, 0, 0, 0, 0], slack=slack))
    return out
