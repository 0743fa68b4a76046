"""B-spline curves, surfaces and the spline parametrization of geometry."""
import itertools
import numpy as np
import fe

PROPERTY = 'C22'
BOUNDS = ('degrees 1-3, up to 6 control points, up to 3 segments, any '
          'parameters, any non-decreasing knots of the listed multiplicity '
          'patterns (symbolic or rational), any control points; boxes in 2D '
          'and 3D with any points, control point values, fields')
OUTSIDE = ('plotting and VTK output, parameters of points found by '
           'minimization, parametric correction of approximations')
ASSUMPTIONS = ['distinct knots differ at least by 0.05']


def oa(ctx, v):
    return fe.ctx_wrap(ctx, np.array(v, dtype=object if ctx.sym else float))


def blossom(P, kn, p, k, args):
    """Value of the polynomial blossom of a curve in the interval k."""
    d = [P[j + k - p] for j in range(p + 1)]
    for r in range(1, p + 1):
        u = args[r - 1]
        for j in range(p, r - 1, -1):
            a, b = kn[j + k - p], kn[j + 1 + k - r]
            w = (u - a) / (b - a)
            d[j] = [x * (1 - w) + y * w for x, y in zip(d[j - 1], d[j])]
    return d[p]


def span(t, kn, p, n):
    """Interval of the parameter (decided)."""
    for k in range(n - 1, p - 1, -1):
        if bool(kn[k] <= t) and bool(kn[k] < kn[k + 1]):
            return k
    return p


def make_knots(ctx, pattern, p, sym=True, lo=0.0):
    """Knots of given multiplicities."""
    kn = []
    cur = lo
    for i, m in enumerate(pattern):
        if i:
            if sym:
                d = ctx.real('dk%d' % i, None, 0.05, 1)
            else:
                d = [0.5, 0.25, 1.0, 0.75][i % 4]
            cur = cur + d
        kn += [cur] * m
    return kn


def h_curve(ctx, degree, pattern, sym=True, cyclic=False, ins=False,
            lo=0.0):
    from sfepy.mesh.bspline import BSpline
    p = degree
    kn = make_knots(ctx, pattern, p, sym, lo)
    n = len(kn) - p - 1
    P = ctx.real('P', (n, 2), -1, 1)
    s = BSpline(p, ncp=n)
    s.set_control_points(P)
    s.set_knot_vector(oa(ctx, kn))
    t = ctx.real('t', None, -5, 8)
    a, b = kn[p], kn[n]
    ctx.assume(t >= a)
    ctx.assume(t <= (b - 0.001 if sym else b))
    for x in kn if not sym else []:
        ctx.assume(ctx.Or(t == x, t >= x + 0.001, t <= x - 0.001))
    tv = oa(ctx, [t])
    B = np.asarray(s.eval_basis(tv, return_val=True))
    ctx.eq(tv[0], t, 'parameters are not changed')
    ctx.same(B.shape, (1, n), 'shape of the basis')
    k = span(t, kn, p, n)
    one = [[float(i == j) for j in range(n)] for i in range(n)]
    want = blossom(one, kn, p, k, [t] * p)
    ctx.eq(B[0], want, 'basis functions')
    ctx.eq(sum(B[0]), 1.0, 'partition of unity')
    for v in B[0]:
        ctx.le(0.0, v, 'basis functions are non-negative')
    c = s.eval(tv)
    ctx.eq(np.asarray(c)[0], [sum(want[i] * P[i, j] for i in range(n))
                              for j in range(2)], 'point of the curve')
    ctx.eq(np.asarray(s.get_control_points()), P, 'control points')
    if not ins:
        return
    u = ctx.real('u', None, -5, 8)
    if ins == 'knot':
        u = kn[p + 1 if len(pattern) > 2 else p]
    ctx.assume(u >= a)
    ctx.assume(u <= b - 0.001)
    if ins != 'knot':
        for x in kn:
            ctx.assume(ctx.Or(*([u >= x + 0.01, u <= x - 0.01]
                                + ([] if sym else [u == x]))))
    mult = sum(1 for x in kn if bool(x == u))
    s.insert_knot(u)
    kn2 = list(np.asarray(s.get_knot_vector()))
    P2 = np.asarray(s.get_control_points())
    if mult >= p:
        ctx.same(len(kn2), len(kn), 'no insertion over the degree')
        return
    ctx.same(len(kn2), len(kn) + 1, 'number of knots')
    ctx.same(len(P2), n + 1, 'number of control points')
    if len(kn2) != len(kn) + 1:
        return
    ku = span(u, kn, p, n)
    ctx.eq(kn2, kn[:ku + 1] + [u] + kn[ku + 1:], 'new knots')
    c2 = np.asarray(s.eval(oa(ctx, [t])))[0]
    ctx.eq(c2, np.asarray(c)[0], 'the curve does not change')


def h_knots(ctx, degree, ncp, kind, lo=0.0, hi=1.0):
    """Generated knot vectors."""
    from sfepy.mesh.bspline import BSpline
    p = degree
    s = BSpline(p, is_cyclic=kind == 'cyclic')
    n = ncp
    P = ctx.real('P', (n, 2), -1, 1)
    s.set_control_points(P)
    if kind == 'cyclic':
        ctx.same(s.ncp, n + p, 'number of control points')
        ctx.eq(np.asarray(s.get_control_points()), P, 'control points')
    N = s.ncp
    s.make_knot_vector(kind, knot_range=(lo, hi))
    kn = [float(v) for v in np.asarray(s.get_knot_vector())]
    ns = N - p
    h = (hi - lo) / ns
    if kind == 'clamped':
        want = [lo] * p + [lo + i * h for i in range(ns + 1)] + [hi] * p
    else:
        want = [lo + i * h for i in range(-p, ns + p + 1)]
    ctx.same(len(kn), len(want), 'number of knots')
    ctx.eq(kn, want, 'knots')
    # ends of the curve
    e = np.asarray(s.eval(oa(ctx, [lo, hi])))
    if kind == 'clamped':
        ctx.eq(e[0], P[0], 'start of the curve')
        ctx.eq(e[1], P[n - 1], 'end of the curve')
    else:
        ctx.eq(e[0], e[1], 'closed curve')
    t = ctx.real('t', None, lo, hi)
    c = np.asarray(s.eval(oa(ctx, [t])))[0]
    Q = [P[i % n] for i in range(N)]
    ctx.eq(c, blossom(Q, kn, p, span(t, kn, p, N), [t] * p),
           'point of the curve')
    # uniform parameters
    s.set_param_n(5, knot_range=(lo, hi))
    s.eval_basis()
    ctx.eq(np.asarray(s.basis).sum(axis=1), np.ones(5), 'partition of unity')
    ctx.eq(np.asarray(s.t), [lo + (hi - lo) * i / 4 for i in range(5)],
           'parameters')


def h_approx(ctx, degree, ncp, npt, cyclic=False, exact=False):
    """Least squares approximation of points."""
    from sfepy.mesh.bspline import BSpline
    # points in regular distances along a line and any heights: parameters
    # are given by the first coordinates only for exact lines
    d = [0.5, 1.0, 0.25, 0.75, 0.5, 1.0]
    x = np.cumsum([0.0] + [v * v for v in d[:npt - 1]])
    X = np.c_[x, np.zeros(npt)]
    s = BSpline(degree, is_cyclic=cyclic)
    a = ctx.real('a', 2, -1, 1)
    kw = {}
    s.approximate(X, ncp=ncp, alpha=0.5, do_eval=True)
    tt = np.asarray(s.t, dtype=float)
    w = np.cumsum([0.0] + list(d[:npt - 1]))
    ctx.eq(tt, w / w[-1], 'centripetal parameters')
    B = np.asarray(s.basis, dtype=float)
    C = np.asarray(s.cp_coors)
    N = ncp + (degree if cyclic else 0)
    ctx.same(C.shape, (N, 2), 'number of control points')
    R = B @ C - X
    G = B
    if cyclic:
        G = B[:, :ncp].copy()
        G[:, :degree] += B[:, ncp:]
        ctx.eq(C[ncp:], C[:degree], 'closed control polygon')
    ctx.eq(G.T @ R, np.zeros((ncp, 2)), 'normal equations', tol=1e-8)
    ctx.eq(np.asarray(s.curve_coors), B @ C, 'approximated points')


def h_surf(ctx, degree, n, cyclic=(False, False), axis=None):
    from sfepy.mesh.bspline import BSplineSurf
    s = BSplineSurf(degree, is_cyclic=cyclic)
    P = ctx.real('P', tuple(n) + (3,), -1, 1)
    s.set_control_points(P)
    s.make_knot_vector()
    kn = [[float(v) for v in sp.knots] for sp in s.splines]
    N = [n[i] + (degree[i] if cyclic[i] else 0) for i in range(2)]
    ctx.same([sp.ncp for sp in s.splines], N, 'numbers of control points')
    t = ctx.real('t', 2, 0, 1)
    if axis is not None:
        t = [t[0], 0.375] if axis == 0 else [0.625, t[1]]
    out = np.asarray(s.eval((oa(ctx, [t[0], 0.25]), oa(ctx, [0.5, t[1], 1.0]))))
    ctx.same(out.shape, (2, 3, 3), 'shape of points')
    T = ([t[0], 0.25], [0.5, t[1], 1.0])
    for i in range(2):
        for j in range(3):
            k0 = span(T[0][i], kn[0], degree[0], N[0])
            k1 = span(T[1][j], kn[1], degree[1], N[1])
            rows = [blossom([P[a % n[0], b % n[1]] for b in range(N[1])],
                            kn[1], degree[1], k1, [T[1][j]] * degree[1])
                    for a in range(N[0])]
            ctx.eq(out[i, j], blossom(rows, kn[0], degree[0], k0,
                                      [T[0][i]] * degree[0]),
                   'point of the surface')
    ctx.eq(np.asarray(s.get_control_points()), P, 'control points')


def h_box(ctx, dim, nsg=None, box=None, axis=None):
    from sfepy.mesh.splinebox import SplineBox
    box = box if box is not None else [[0, 1], [-1, 1], [2, 5]][:dim]
    # one point anywhere, corners and fixed points
    x = ctx.real('x', dim, -2, 6)
    pts = [list(x)]
    if axis is not None:
        for j in range(dim):
            if j != axis:
                pts[0][j] = box[j][0] * 0.5 + box[j][1] * 0.5
    pts.append([b[0] for b in box])
    pts.append([b[1] for b in box])
    pts.append([b[0] * 0.75 + 0.25 * b[1] for b in box])
    pts.append([b[1] + 0.5 for b in box])
    X = oa(ctx, pts)
    isin = [all(bool(q[j] >= box[j][0]) and bool(q[j] <= box[j][1])
                for j in range(dim)) for q in pts]
    s = SplineBox(np.array(box, dtype=float), X, nsg=nsg)
    ns = [1] * dim if nsg is None else nsg
    n = [3 + k for k in ns]
    ncp = int(np.prod(n))
    ctx.same(np.asarray(s.idxs_inside).astype(bool).tolist(), isin,
             'points inside')
    ctx.eq(np.asarray(s.evaluate()), X, 'initial box keeps the points')
    P0 = np.asarray(s.get_control_points()).copy()
    ctx.same(P0.shape, (ncp, dim), 'number of control points')
    ctx.eq(np.asarray(s.get_control_points(init=True)), P0,
           'initial control points')
    kn = [[b[0]] * 3 + [b[0] + (b[1] - b[0]) * i / k for i in range(k + 1)]
          + [b[1]] * 3 for b, k in zip(box, ns)]

    def tensor(P, q):
        """Value of the tensor product spline."""
        def rec(j, off):
            if j < 0:
                return list(P[off])
            st = int(np.prod(n[:j]))
            rows = [rec(j - 1, off + i * st) for i in range(n[j])]
            return blossom(rows, kn[j], 3, span(q[j], kn[j], 3, n[j]),
                           [q[j]] * 3)
        return rec(dim - 1, 0)
    # one moved control point
    grid = [(k * 2 + 1) % n[k] for k in range(dim)]
    idx = sum(g * int(np.prod(n[:k])) for k, g in enumerate(grid))
    v = ctx.real('v', dim, -1, 1)
    s.move_control_point(grid, v)
    s.move_control_point(idx, v)
    P = P0.copy().astype(object if ctx.sym else float)
    for j in range(dim):
        P[idx, j] = P[idx, j] + 2 * v[j]
    ctx.eq(np.asarray(s.get_control_points()), P, 'moved control point')
    ctx.eq(np.asarray(s.get_control_points(init=True)), P0,
           'initial control points are kept')
    Y = np.asarray(s.evaluate())
    for k, q in enumerate(pts):
        ctx.eq(Y[k], tensor(P, q) if isin[k] else q, 'moved points')
    Y2 = np.asarray(s.evaluate(outside=False))
    ctx.same(len(Y2), sum(isin), 'points inside only')
    for k, r in enumerate([k for k in range(len(pts)) if isin[k]]):
        ctx.eq(Y2[k], Y[r], 'points inside only')
    ctx.eq(np.asarray(s.coors), X, 'original coordinates are kept')
    D = np.asarray(s.evaluate_derivative(grid, v))
    D2 = np.asarray(s.evaluate_derivative(idx, v))
    ctx.eq(D, D2, 'derivative by the number of the control point')
    for k, r in enumerate([k for k in range(len(pts)) if isin[k]]):
        ctx.eq(2 * D[k], Y[r] - np.asarray([pts[r][j] for j in range(dim)],
               dtype=object if ctx.sym else float),
               'derivative with respect to a control point')
    # values given by a user
    Q = ctx.real('Q', (ncp, 1), -1, 1)
    E = np.asarray(s.evaluate(cp_values=Q, outside=False))
    for k, r in enumerate([k for k in range(len(pts)) if isin[k]]):
        ctx.eq(E[k], tensor(Q, pts[r]), 'given control values')
    s.set_control_points(oa(ctx, P0.tolist()))
    s.set_control_points(oa(ctx, [[1.0] * dim] * ncp), add=True)
    Y = np.asarray(s.evaluate())
    for k, q in enumerate(pts):
        ctx.eq(Y[k], [c + (1 if isin[k] else 0) for c in q],
               'shifted control points')


class Shim(object):
    """Arrays of numbers can be changed to symbolic ones."""

    def __init__(self, ctx, nm):
        self.ctx, self.nm = ctx, nm

    def array(self, x, **kw):
        return fe.ctx_wrap(self.ctx, np.array(x, dtype=object))

    def __getattr__(self, name):
        return getattr(self.nm, name)


def h_region_cp(ctx, nx, ny):
    """Control points of a spline region."""
    from sfepy.mesh.splinebox import SplineRegion2D
    import sfepy.mesh.splinebox as sb
    m = 2 * (nx + ny) - 4
    if ctx.sym and not isinstance(sb.nm, Shim):
        sb.nm = Shim(ctx, sb.nm)
    b = ctx.real('b', (m, 2), -1, 1)
    C = np.asarray(SplineRegion2D.define_control_points(b, (nx, ny)))
    ring = [(i, 0) for i in range(nx)] + [(nx - 1, j) for j in
                                          range(1, ny - 1)]
    ring += [(i, ny - 1) for i in range(nx - 1, -1, -1)]
    ring += [(0, j) for j in range(ny - 2, 0, -1)]
    for k, (i, j) in enumerate(ring):
        ctx.eq(C[i + nx * j], b[k], 'boundary control points')
    # affine positions are kept
    A = ctx.real('A', (2, 2), -1, 1)
    o = ctx.real('o', 2, -1, 1)

    def pos(i, j):
        u, v = i / (nx - 1.0), j / (ny - 1.0)
        return [A[k, 0] * u + A[k, 1] * v + o[k] for k in range(2)]
    C = np.asarray(SplineRegion2D.define_control_points(
        oa(ctx, [pos(i, j) for i, j in ring]), (nx, ny)))
    for i in range(nx):
        for j in range(ny):
            ctx.eq(C[i + nx * j], pos(i, j), 'control points of an affine '
                   'region')


PAT = {1: [(2, 2), (2, 1, 2), (2, 1, 1, 2), (1, 1, 1, 1)],
       2: [(3, 3), (3, 1, 3), (3, 2, 3), (3, 1, 2, 3), (1,) * 6],
       3: [(4, 4), (4, 1, 4), (4, 2, 4), (4, 3, 4), (4, 1, 1, 4), (1,) * 8]}


def cases(tier):
    from symx.runner import Case
    th = tier == 'thorough'
    out = []
    for p in PAT:
        for pat in PAT[p]:
            for sym in (True, False):
                out.append(Case(
                    'curve %d %s %s' % (p, pat, 'any' if sym else 'fixed'),
                    'h_curve', dict(degree=p, pattern=pat, sym=sym),
                    thorough_only=sym and p == 3 and len(pat) > 3))
                out.append(Case(
                    'insert %d %s %s' % (p, pat, 'any' if sym else 'fixed'),
                    'h_curve', dict(degree=p, pattern=pat, sym=sym, ins=True),
                    thorough_only=sym and p == 3))
            out.append(Case('insert again %d %s' % (p, pat), 'h_curve',
                            dict(degree=p, pattern=pat, sym=False,
                                 ins='knot')))
            out.append(Case('curve shifted %d %s' % (p, pat), 'h_curve',
                            dict(degree=p, pattern=pat, sym=False, lo=-2.0)))
    for p in (1, 2, 3):
        for kind in ('clamped', 'cyclic'):
            for n in (p + 1, p + 2, p + 4) if kind == 'clamped' else (4, 8):
                for lo, hi in ((0.0, 1.0), (-2.0, 2.0), (4.0, 5.0)):
                    out.append(Case('knots %s %d %d %g' % (kind, p, n, lo),
                                    'h_knots', dict(degree=p, ncp=n,
                                                    kind=kind, lo=lo,
                                                    hi=hi)))
    for p, n, m in ((1, 3, 5), (2, 3, 5), (2, 4, 6), (3, 4, 6), (3, 5, 7)):
        out.append(Case('approximate %d %d %d' % (p, n, m), 'h_approx',
                        dict(degree=p, ncp=n, npt=m)))
    for p, n, m in ((1, 3, 6), (2, 3, 7), (2, 4, 7)):
        out.append(Case('approximate cyclic %d %d %d' % (p, n, m), 'h_approx',
                        dict(degree=p, ncp=n, npt=m, cyclic=True)))
    for p, n, c in (((1, 2), (2, 4), (False, False)),
                    ((2, 1), (4, 3), (True, False)),
                    ((3, 2), (4, 4), (False, False)),
                    ((2, 2), (3, 4), (False, True))):
        for axis in (0, 1) if max(p) + max(c) > 2 else (None,):
            out.append(Case('surface %s %s %s' % (p, c, axis), 'h_surf',
                            dict(degree=p, n=n, cyclic=c, axis=axis)))
    for dim, nsg in ((2, None), (2, [2, 1]), (2, [1, 4]), (3, None),
                     (3, [1, 2, 1])):
        for axis in ((None,) if dim == 2 and nsg is None else range(dim)):
            out.append(Case('box %d %s %s' % (dim, nsg, axis), 'h_box',
                            dict(dim=dim, nsg=nsg, axis=axis)))
    out.append(Case('box 2 [2, 1]', 'h_box', dict(dim=2, nsg=[2, 1]),
                    thorough_only=True))
    for axis in (0, 1):
        out.append(Case('box large %d' % axis, 'h_box',
                        dict(dim=2, nsg=[1, 2], box=[[-4, 4], [4, 5]],
                             axis=axis)))
    for nx, ny in ((4, 4), (4, 5), (5, 4)):
        out.append(Case('region %d %d' % (nx, ny), 'h_region_cp',
                        dict(nx=nx, ny=ny)))
    return out


def warm():
    from symx import driver
    import sfepy.mesh.bspline
    h_box(driver.Ctx('conc'), 2)
    h_surf(driver.Ctx('conc'), (1, 1), (2, 2))
