"""Finite element bases: derivatives, completeness, traces."""
import itertools
import numpy as np
import fe

PROPERTY = 'C06'
BOUNDS = ('the point ranges over the whole reference element (interior) or '
          'one whole facet of it; orders up to 4 (1D, 2D) and 3 (3D), one '
          'more in the thorough tier; several points at once: up to four')
OUTSIDE = ('facet orientations of hierarchical bases (see the continuity '
           'property), IGA and DG bases (separate properties)')


def space(ctx, gd, order, basis, bubble=False):
    from sfepy.discrete import PolySpace
    from sfepy.discrete.fem.geometry_element import GeometryElement
    with ctx.concrete():
        g = GeometryElement(gd)
    ps = PolySpace.any_from_args(None, g, order, basis, bubble)
    return g, ps


def inside(ctx, g, name='x'):
    """A point of the reference element."""
    x = ctx.real(name, g.dim, lo=0, hi=1)
    if g.name in ('2_3', '3_4'):
        ctx.assume(sum(x[k] for k in range(g.dim)) <= 1)
    elif g.name == '3_6':
        ctx.assume(x[0] + x[1] <= 1)
    return x


def row(ctx, x):
    return x.reshape((1, len(x)))


def tensor(gd):
    return gd in ('1_2', '2_4', '3_8')


def exponents(g, order, basis):
    dim = g.dim
    out = []
    for e in itertools.product(range(order + 1), repeat=dim):
        if basis == 'serendipity':
            # superlinear degree
            ok = sum(k for k in e if k > 1) <= order and max(e) <= order
        elif g.name == '3_6':
            ok = e[0] + e[1] <= order
        elif tensor(g.name):
            ok = True
        else:
            ok = sum(e) <= order
        if ok:
            out.append(e)
    return out


def mono(x, e):
    out = 1
    for k, n in enumerate(e):
        for _ in range(n):
            out = out * x[k]
    return out


def sample_points(g, order):
    """Unisolvent points."""
    n = order + 1
    pts = []
    for e in itertools.product(range(n), repeat=g.dim):
        p = np.array(e) / max(order, 1)
        if g.name in ('2_3', '3_4') and sum(e) > order:
            continue
        if g.name == '3_6' and e[0] + e[1] > order:
            continue
        pts.append(p)
    # Keep inside of the closed element.
    c = g.coors.mean(axis=0)
    return np.array(pts) * 0.75 + 0.25 * c


NODAL = ('lagrange', 'serendipity', 'sem')


def h_basis(ctx, gd, order, basis='lagrange', bubble=False):
    g, ps = space(ctx, gd, order, basis, bubble)
    x = inside(ctx, g)
    dim = g.dim

    def f0(x):
        return np.asarray(ps.eval_basis(row(ctx, x), suppress_errors=True)
                          )[0, 0]

    def f1(x):
        return np.asarray(ps.eval_basis(row(ctx, x), diff=1,
                                        suppress_errors=True))[0]
    v, dv = ctx.derivative(f0, x)
    gr, dgr = ctx.derivative(f1, x)
    n = ps.n_nod
    ctx.true(v.shape == (n,) and gr.shape == (dim, n), 'shapes')
    for ib in range(n):
        ctx.eq(gr[:, ib], dv[ib], 'gradient of %d' % ib, rtol=1e-5)
    if basis != 'lobatto':
        ctx.eq(np.sum(np.asarray(v)), 1, 'partition of unity')
        ctx.eq(np.sum(np.asarray(gr), axis=1), np.zeros(dim),
               'sum of gradients')
    if basis == 'bernstein':
        for ib in range(n):
            ctx.le(0, v[ib], 'Bernstein function %d is nonnegative' % ib)
    if basis == 'lagrange' and gd != '3_6':
        hs = np.asarray(ps.eval_basis(row(ctx, x), diff=2,
                                      suppress_errors=True))[0]
        ctx.true(hs.shape == (dim, dim, n), 'shape of the 2nd derivatives')
        for ib in range(n):
            ctx.eq(hs[:, :, ib], np.asarray(dgr)[:, ib, :],
                   '2nd derivatives of %d' % ib, rtol=1e-5)


def h_complete(ctx, gd, order, basis='lagrange', bubble=False):
    """Polynomials up to the order are reproduced."""
    g, ps = space(ctx, gd, order, basis, bubble)
    x = inside(ctx, g)
    v = np.asarray(ps.eval_basis(row(ctx, x), suppress_errors=True))[0, 0]
    nc = np.asarray(ps.node_coors, dtype=float)
    if basis not in NODAL:
        with ctx.concrete():
            pts = sample_points(g, order)
            B = ps.eval_basis(np.ascontiguousarray(pts))[:, 0]
    for e in exponents(g, order, basis):
        if basis in NODAL:
            c = np.array([float(mono(p, e)) for p in nc])
            if bubble:
                c[-1] = c[:-1].mean()
        else:
            c = np.linalg.solve(B, [mono(p, e) for p in pts])
        ctx.eq(sum(float(c[k]) * v[k] for k in range(ps.n_nod)),
               mono(x, e), 'monomial %s' % (e,), tol=1e-10)


def facets(g):
    """Facets as lists of vertices, edges and vertices too in 3D."""
    out = []
    n = g.n_vertex
    if g.dim == 1:
        return [[0], [1]]
    C = g.coors
    # all faces of the (convex) element: sets of vertices on supporting planes
    planes = []
    for k in range(g.dim):
        planes += [np.where(C[:, k] == v)[0] for v in (0, 1)]
    if g.name in ('2_3', '3_4'):
        planes.append(np.where(C.sum(1) == 1)[0])
    elif g.name == '3_6':
        planes.append(np.where(C[:, :2].sum(1) == 1)[0])
    sets = set(frozenset(p.tolist()) for p in planes)
    for a, b in itertools.combinations(list(sets), 2):
        if a & b:
            sets.add(a & b)
    for a, b in itertools.combinations(list(sets), 2):
        if a & b:
            sets.add(a & b)
    good = []
    for s in sets:
        s = sorted(s)
        dimf = np.linalg.matrix_rank(C[s] - C[s[0]])
        # (1, 0) planes of simplices are single vertices
        if len(s) in (dimf + 1, 2 ** dimf):
            good.append((s, dimf))
    return sorted(good)


def axes(g, s, dimf):
    """Neighbours of the first vertex of a face."""
    if len(s) == 3:
        return s[1], s[2]
    C = g.coors
    o = np.argsort([np.linalg.norm(C[v] - C[s[0]]) for v in s],
                   kind='stable')
    far = o[-1]
    a, b = [v for i, v in enumerate(s) if i not in (0, far)]
    return a, b


def on_facet(ctx, g, s, dimf):
    C = g.coors
    if dimf == 0:
        return np.array(C[s[0]], dtype=float), None
    t = ctx.real('t', int(dimf), lo=0, hi=1)
    if dimf == 1:
        x = [C[s[0], k] + t[0] * (C[s[1], k] - C[s[0], k])
             for k in range(g.dim)]
    else:
        if len(s) == 3:
            ctx.assume(t[0] + t[1] <= 1)
        a, b = axes(g, s, dimf)
        x = [C[s[0], k] + t[0] * (C[a, k] - C[s[0], k])
             + t[1] * (C[b, k] - C[s[0], k]) for k in range(g.dim)]
    return x, t


def member(g, s, p):
    """p lies on the facet given by vertices s"""
    C = g.coors
    A = (C[s] - C[s[0]]).T
    r = p - C[s[0]]
    q = A @ np.linalg.lstsq(A, r, rcond=None)[0] if len(s) > 1 else 0 * r
    return np.abs(q - r).max() < 1e-6


def h_trace(ctx, gd, order, basis, k):
    """Functions of nodes off a facet vanish on it, the others form the
    trace space, that depends only on the nodes of the facet."""
    g, ps = space(ctx, gd, order, basis)
    s, dimf = facets(g)[k]
    x, t = on_facet(ctx, g, s, dimf)
    xx = fe.ctx_wrap(ctx, np.array([x], dtype=object if ctx.sym else float))
    v = np.asarray(ps.eval_basis(xx, suppress_errors=True))[0, 0]
    nc = np.asarray(ps.node_coors, dtype=float)
    if basis == 'lobatto':
        on = lobatto_on(g, ps, s)
    else:
        on = [member(g, s, p) for p in nc]
    n_on = 0
    for ib in range(ps.n_nod):
        if not on[ib]:
            ctx.eq(v[ib], 0, 'function %d on facet %s' % (ib, s))
        else:
            n_on += 1
    m = order + 1
    if basis == 'serendipity':
        want = {0: 1, 1: m, 2: 4 * order}[dimf]
    elif len(s) == 3 and dimf == 2:
        want = m * (m + 1) // 2
    else:
        want = m ** dimf
    ctx.true(n_on == want, 'number of functions on facet %s' % s)
    if basis in ('lagrange', 'bernstein', 'sem') and dimf in (1, 2):
        # the trace is the basis of the facet element
        fg, fps = space(ctx, {(1, 2): '1_2', (2, 3): '2_3', (2, 4): '2_4'}[
            (dimf, len(s))], order, basis)
        fv = np.asarray(fps.eval_basis(row(ctx, t), suppress_errors=True)
                        )[0, 0]
        C = g.coors
        fn = np.asarray(fps.node_coors, dtype=float)
        if dimf == 1:
            fx = C[s[0]] + fn[:, :1] * (C[s[1]] - C[s[0]])
        else:
            a, b = axes(g, s, dimf)
            fx = C[s[0]] + fn[:, :1] * (C[a] - C[s[0]]) \
                + fn[:, 1:] * (C[b] - C[s[0]])
        for i, p in enumerate(fx):
            ib = np.where(np.abs(nc - p).max(axis=1) < 1e-6)[0]
            if len(ib) != 1:
                ctx.true(False, 'matching node of facet %s' % s)
                continue
            ctx.eq(v[ib[0]], fv[i], 'trace %d on facet %s' % (i, s))


def lobatto_on(g, ps, s):
    """Node types tell the entity the function is associated to."""
    C = g.coors
    gv = [[v] for v in range(g.n_vertex)]
    ge = [list(map(int, e)) for e in g.edges] if g.dim > 1 else []
    gf = [list(map(int, e)) for e in g.faces] if g.dim > 2 else []
    out = []
    for kind, ii in ps.nts:
        if kind == 3:
            out.append(set(range(g.n_vertex)) <= set(s))
        else:
            out.append(set([gv, ge, gf][kind][ii]) <= set(s))
    return out


def h_nodes(ctx, gd, order, basis, ):
    """Node types agree with node positions; values in nodes."""
    g, ps = space(ctx, gd, order, basis)
    nc = np.asarray(ps.node_coors, dtype=float)
    ents = {0: [[v] for v in range(g.n_vertex)],
            1: [list(map(int, e)) for e in g.edges] if g.dim > 1 else [],
            2: [list(map(int, e)) for e in g.faces] if g.dim > 2 else []}
    for i, (kind, ii) in enumerate(ps.nts):
        lower = []
        if kind == 3:
            lower = [f[0] for f in facets(g)] if g.dim > 1 else [[0], [1]]
        else:
            s = ents[int(kind)][int(ii)]
            ctx.true(member(g, s, nc[i]), 'node %d on its entity' % i)
            if kind:
                lower = [f[0] for f in facets(g)
                         if set(f[0]) < set(s)]
        ctx.true(not any(member(g, f, nc[i]) for f in lower),
                 'node %d inside of its entity' % i)
    # A function given by DOFs takes their values in nodes.
    c = ctx.real('c', ps.n_nod, lo=-1, hi=1)
    B = ps.eval_basis(nc, suppress_errors=True)
    u = np.asarray(B)[:, 0].dot(np.asarray(c))
    ctx.eq(u, c, 'values in nodes')
    v = ctx.real('v', g.n_vertex, lo=-1, hi=1)


def h_points(ctx, gd, order, basis):
    """Sets of points, transformations."""
    g, ps = space(ctx, gd, order, basis)
    n = 2 if order > 1 else 4
    rng = np.random.RandomState(1)
    X = np.zeros((2, 2, g.dim), dtype=object if ctx.sym else float)
    c = g.coors.mean(0)
    X[...] = (rng.rand(2, 2, g.dim) - 0.5) * 0.2 + c
    X[1, 0] = np.asarray(inside(ctx, g))
    X[0, 1, 0] = ctx.real('y', lo=0.125, hi=0.25)
    X = fe.ctx_wrap(ctx, X)
    T = np.random.RandomState(2).randint(-2, 3, (2, ps.n_nod, ps.n_nod)) * 0.5
    for diff in (0, 1):
        kw = dict(diff=diff, suppress_errors=True)
        one = [[np.asarray(ps.eval_basis(X[i, j:j + 1], **kw))[0]
                for j in range(2)] for i in range(2)]
        every = ps.eval_basis(X, **kw)
        flat = ps.eval_basis(X.reshape((4, g.dim)), force_axis=True, **kw)
        tr = ps.eval_basis(X[1], transform=T, **kw)
        ctx.true(np.shape(flat)[0] == 1, 'force_axis')
        for i in range(2):
            for j in range(2):
                ctx.eq(every[i, j], one[i][j], 'point %d %d of sets, diff %d'
                       % (i, j, diff))
                ctx.eq(flat[0, 2 * i + j], one[i][j], 'point %d, diff %d'
                       % (2 * i + j, diff))
        for ic in range(2):
            for j in range(2):
                ctx.eq(tr[ic, j], one[1][j].dot(T[ic].T),
                       'transformed basis, diff %d' % diff)


def h_sem(ctx, order):
    """LGL nodes and weights."""
    from sfepy.discrete.fem.poly_spaces import get_lgl_nodes
    with ctx.concrete():
        xs, ws = get_lgl_nodes(order)
    c = ctx.real('c', 2 * order, lo=-1, hi=1)

    def p(x):
        out = 0
        for k in range(2 * order - 1, -1, -1):
            out = out * float(x) + c[k]
        return out
    ctx.eq(sum(float(w) * p(x) for x, w in zip(xs, ws)),
           sum(2 * c[k] / (k + 1) for k in range(0, 2 * order, 2)),
           'exact up to degree 2p - 1', tol=1e-10)


def h_outside(ctx, gd, order):
    """Points outside are reported, points in the element are not."""
    g, ps = space(ctx, gd, order, 'lagrange')
    x = ctx.real('x', g.dim, lo=-1, hi=2)
    def out(eps):
        o = [ctx.Or(x[k] < -eps, x[k] > 1 + eps) for k in range(g.dim)]
        if not tensor(gd):
            o.append(sum(x[k] for k in range(g.dim)) > 1 + eps)
        return ctx.Or(*o)
    try:
        ps.eval_basis(row(ctx, x))
        ok = True
    except ValueError:
        ok = False
    # A reported error does not influence later evaluations.
    y = ctx.const(np.array(g.coors.mean(0)))
    ctx.eq(np.asarray(ps.eval_basis(row(ctx, y)))[0, 0].sum(), 1,
           'evaluation after an error')
    ctx.true(ctx.Not(out(1e-9)) if ok else out(0), 'reported: %s' % (not ok))


def warm():
    fe.warm()


SETS = {'lagrange': {'1_2': (1, 2, 3, 4, 5), '2_3': (1, 2, 3, 4, 5),
                     '2_4': (1, 2, 3, 4), '3_4': (1, 2, 3, 4),
                     '3_8': (1, 2, 3), '3_6': (1, 2, 3)},
        'serendipity': {'2_4': (1, 2, 3), '3_8': (1, 2, 3)},
        'bernstein': {'1_2': (1, 2, 3, 4), '2_3': (1, 2, 3, 4),
                      '2_4': (1, 2, 3), '3_4': (1, 2, 3), '3_8': (1, 2, 3)},
        'sem': {'1_2': (1, 2, 3, 4), '2_4': (1, 2, 3), '3_8': (1, 2)},
        'lobatto': {'1_2': (1, 2, 3, 4, 5, 6, 7, 8, 9, 10), '2_4': (1, 2, 3, 4),
                    '3_8': (1, 2, 3)}}
SLOW = {('lagrange', '2_3', 5), ('lagrange', '2_4', 4),
        ('lagrange', '3_4', 4), ('lagrange', '3_8', 3),
        ('bernstein', '3_8', 3), ('lobatto', '3_8', 3),
        ('lagrange', '3_6', 3), ('serendipity', '3_8', 3),
        ('bernstein', '2_3', 4), ('sem', '1_2', 4)}


def cases(tier):
    from symx.runner import Case
    from sfepy.discrete.fem.geometry_element import GeometryElement
    out = []
    for basis, gs in SETS.items():
        for gd, orders in gs.items():
            for order in orders:
                p = dict(gd=gd, order=order, basis=basis)
                n = '%s.%s.%d' % (basis, gd, order)
                slow = (basis, gd, order) in SLOW
                out.append(Case('basis.' + n, 'h_basis', p,
                                thorough_only=slow))
                if (basis, order) != ('lobatto', 10):
                    # rounding of the coefficients leaves this undecided
                    out.append(Case('complete.' + n, 'h_complete', p,
                                    thorough_only=slow))
                if basis in NODAL and (gd != '3_6' or order == 1):
                    out.append(Case('nodes.' + n, 'h_nodes', p,
                                    thorough_only=slow))
                if order < 3:
                    out.append(Case('points.' + n, 'h_points', p,
                                    thorough_only=gd == '3_8' and order > 1))
                for k in range(len(facets(GeometryElement(gd)))):
                    if gd == '1_2':
                        break
                    out.append(Case('trace.%s.%d' % (n, k), 'h_trace',
                                    dict(p, k=k),
                                    thorough_only=slow or order > 2 and k > 6))
    for gd, orders in (('2_3', (1, 2)), ('3_4', (1, 2))):
        for order in orders:
            p = dict(gd=gd, order=order, basis='lagrange', bubble=True)
            out.append(Case('basis.bubble.%s.%d' % (gd, order), 'h_basis', p))
            out.append(Case('complete.bubble.%s.%d' % (gd, order),
                            'h_complete', p))
    for order in range(1, 7):
        out.append(Case('lgl.%d' % order, 'h_sem', dict(order=order)))
    for gd in ('1_2', '2_3', '2_4', '3_4', '3_8'):
        out.append(Case('outside.%s' % gd, 'h_outside',
                        dict(gd=gd, order=1 if gd[0] == '3' else 1)))
    return out
