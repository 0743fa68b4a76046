"""Quadratures integrate polynomials exactly."""
import itertools
from fractions import Fraction as Fr
from math import factorial
import numpy as np
import fe

PROPERTY = 'C07'
BOUNDS = ('all polynomials with coefficients in [-1, 1] up to the requested '
          'order (per axis on tensor product cells and wedges unless the '
          'total order is requested); orders up to 47 (1D), 24 (triangle), '
          '9 (quadrilateral, tetrahedron), 7 (hexahedron), 6 (wedge)')
OUTSIDE = 'spectral element and contact quadratures (see other properties)'
DIM = {'1_2': 1, '2_3': 2, '2_4': 2, '3_4': 3, '3_8': 3, '3_6': 3}


def exact(gd, e):
    """Integral of a monomial over the reference cell."""
    if gd in ('1_2', '2_4', '3_8'):
        out = Fr(1)
        for k in e:
            out /= k + 1
        return out
    if gd == '3_6':
        return exact('2_3', e[:2]) / (e[2] + 1)
    num = 1
    for k in e:
        num *= factorial(k)
    return Fr(num, factorial(sum(e) + DIM[gd]))


def exps(gd, order, full):
    out = []
    for e in itertools.product(range(order + 1), repeat=DIM[gd]):
        if full or gd in ('2_3', '3_4'):
            ok = sum(e) <= order
        elif gd == '3_6':
            ok = e[0] + e[1] <= order
        else:
            ok = True
        if ok:
            out.append(e)
    return out


def poly(c, es):
    def fun(x):
        x = np.asarray(x, dtype=float)
        pw = [[np.ones(len(x))] for _ in range(x.shape[1])]
        for k in range(x.shape[1]):
            for _ in range(max(e[k] for e in es)):
                pw[k].append(pw[k][-1] * x[:, k])
        out = np.zeros(len(x), dtype=object)
        for j, e in enumerate(es):
            v = np.ones(len(x))
            for k, n in enumerate(e):
                v = v * pw[k][n]
            out = out + np.array([c[j] * float(q) for q in v])
        return out
    return fun


def h(ctx, gd, order, full=False, by='qp'):
    from sfepy.discrete.integrals import Integral, Integrals
    es = exps(gd, order, full)
    c = ctx.real('c', len(es), lo=-1, hi=1)
    f = poly(c, es)
    want = sum(c[j] * float(exact(gd, e)) for j, e in enumerate(es))
    i = Integral('i', order=order, full_order=full)
    x, w = i.get_qp(gd)
    inside(ctx, gd, x)
    fv = f(x)
    ctx.eq(sum(fv[k] * float(q) for k, q in enumerate(np.asarray(w))),
           want, 'integral', tol=2e-11, rtol=2e-9)
    if not full:
        i2 = Integrals().get(order)
        x2, w2 = i2.get_qp(gd)
        ctx.true(np.array_equal(np.asarray(x), np.asarray(x2)), 'by order')
    g = ctx.const if ctx.sym else (lambda a: a.astype(float))
    val = i.integrate(lambda y: fe.ctx_wrap(ctx, g(f(y))) if ctx.sym
                      else g(f(y)), order=order, geometry=gd)
    ctx.eq(val, want, 'integrate()', tol=2e-11, rtol=2e-9)


def inside(ctx, gd, x):
    x = np.asarray(x, dtype=float)
    eps = 1e-14
    ok = np.all(x >= -eps) and np.all(x <= 1 + eps)
    if gd in ('2_3', '3_4'):
        ok = ok and np.all(x.sum(1) <= 1 + eps)
    elif gd == '3_6':
        ok = ok and np.all(x[:, :2].sum(1) <= 1 + eps)
    ctx.true(bool(ok), 'points inside of the element')


def h_custom(ctx, dim, bounds, tp_fix=1.0, wf=1.0):
    """Custom points given in other bounds."""
    from sfepy.discrete.integrals import Integral
    n = 3
    a, b = bounds
    x = ctx.real('x', (n, dim), lo=a, hi=b)
    w = ctx.real('w', n, lo=-1, hi=1)
    i = Integral('i', coors=x, weights=w, bounds=bounds, tp_fix=tp_fix,
                 weight_fix=wf)
    q, v = i.get_qp({1: '1_2', 2: '2_4', 3: '3_8'}[dim])
    L = b - a
    ctx.eq(q, np.asarray((np.asarray(x) - a) / L), 'coordinates')
    ctx.eq(v, np.asarray(w) * wf / L ** dim, 'weights')


def h_sym(ctx, bounds, zero):
    """Symmetric 1D rules."""
    from sfepy.discrete.quadratures import QuadraturePoints
    a, b = bounds
    c, r = 0.5 * (a + b), 0.5 * (b - a)
    t = ctx.real('t', 2, lo=0.125, hi=1)
    w = ctx.real('w', 3, lo=0.125, hi=1)
    if zero:
        d = [[0.0, w[0]], [t[0], w[1]], [t[1], w[2]]]
    else:
        d = [[t[0], w[1]], [t[1], w[2]]]
    data = fe.ctx_wrap(ctx, np.array(d, dtype=object if ctx.sym else float))
    qp = QuadraturePoints(data, bounds=(-1.0, 1.0), symmetric=True)
    x, v = np.asarray(qp.coors), np.asarray(qp.weights)
    want = [(1 - t[1]) / 2, (1 - t[0]) / 2, (1 + t[0]) / 2, (1 + t[1]) / 2]
    ww = [w[2] / 2, w[1] / 2, w[1] / 2, w[2] / 2]
    if zero:
        want.insert(2, 0.5)
        ww.insert(2, w[0] / 2)
    ctx.true(x.shape == (len(want), 1) and v.shape == (len(want),), 'shape')
    ctx.eq(x[:, 0], np.array(want), 'symmetric points')
    ctx.eq(v, np.array(ww), 'symmetric weights')


def warm():
    fe.warm()


MAX = {'1_2': 47, '2_3': 24, '2_4': 9, '3_4': 9, '3_8': 7, '3_6': 6}
QUICK = {'1_2': 47, '2_3': 20, '2_4': 7, '3_4': 7, '3_8': 5, '3_6': 6}


def cases(tier):
    from symx.runner import Case
    out = []
    for gd, m in MAX.items():
        for order in range(0, m + 1):
            out.append(Case('%s.%d' % (gd, order), 'h',
                            dict(gd=gd, order=order),
                            thorough_only=order > QUICK[gd]))
            if gd in ('2_4', '3_8', '3_6'):
                out.append(Case('%s.full.%d' % (gd, order), 'h',
                                dict(gd=gd, order=order, full=True),
                                thorough_only=order > QUICK[gd]))
    for dim in (1, 2, 3):
        for b in ((-1.0, 1.0), (0.0, 2.0), (-0.5, 1.5), (1.0, 3.0)):
            out.append(Case('custom.%d.%g.%g' % ((dim,) + b), 'h_custom',
                            dict(dim=dim, bounds=b)))
    out.append(Case('custom.fix', 'h_custom', dict(
        dim=2, bounds=(-1.0, 1.0), tp_fix=0.5, wf=2.0)))
    out.append(Case('sym.0', 'h_sym', dict(bounds=(-1.0, 1.0), zero=False)))
    out.append(Case('sym.1', 'h_sym', dict(bounds=(-1.0, 1.0), zero=True)))
    return out
