"""NURBS patches evaluated by Bezier extraction (isogeometric analysis)."""
import itertools
import numpy as np
import fe
from c_spline import blossom, oa
from c_mech import det as mdet

PROPERTY = 'C21'
BOUNDS = ('degrees 1-4 and up to 5 elements per axis for the extraction, any '
          'distinct knots, multiplicities 1 to degree + 1; patches in 1D, 2D '
          'and 3D of degrees 1-3 with 1-3 elements per axis, any weights, '
          'reference points, variable values, control points')
OUTSIDE = ('degree elevation and patch generators (need igakit), reading of '
           'HDF5 files, plotting and VTK output')
ASSUMPTIONS = ['distinct knots differ at least by 0.05',
               'weights in [0.5, 2]', 'the mapping is invertible']


def knots_1d(ctx, pattern, degree, sym, name='dk'):
    """Open knot vector with inner multiplicities."""
    cur, kn = 0.0, [0.0] * (degree + 1)
    for i, m in enumerate(tuple(pattern) + (degree + 1,)):
        d = (ctx.real('%s%d' % (name, i), None, 0.05, 1) if sym
             else 0.5)
        cur = cur + d
        kn += [cur] * m
    return kn


def spans(kn, degree, pattern):
    """Indices of the non-empty intervals."""
    out = [degree]
    for m in pattern:
        out.append(out[-1] + m)
    return out


def bezier(kn, p, k, n):
    """Bezier coefficients of the basis functions in the interval k."""
    one = [[float(i == j) for j in range(n)] for i in range(n)]
    return [blossom(one, kn, p, k, [kn[k]] * (p - b) + [kn[k + 1]] * b)
            for b in range(p + 1)]


def bernstein(x, p):
    from math import comb
    return [comb(p, b) * x ** b * (1 - x) ** (p - b) if 0 < b < p else
            ((1 - x) ** p if b == 0 else x ** p) for b in range(p + 1)] \
        if p else [1.0]


def h_extraction(ctx, degree, pattern, sym=True):
    import sfepy.discrete.iga as iga
    p = degree
    kn = knots_1d(ctx, pattern, p, sym)
    n = len(kn) - p - 1
    cs = iga.compute_bezier_extraction(oa(ctx, kn), p)[0]
    cs = np.asarray(cs)
    conn, bconn = iga.create_connectivity((len(cs),), oa(ctx, kn), p)
    ks = spans(kn, p, pattern)
    ctx.same(len(cs), len(ks), 'number of elements')
    conn, bconn = np.asarray(conn), np.asarray(bconn)
    ctx.same(conn.tolist(), [list(range(k - p, k + 1)) for k in ks],
             'functions of the elements')
    ctx.same(bconn.tolist(), [list(range(p * e, p * e + p + 1))
                              for e in range(len(ks))], 'Bezier mesh')
    for e, k in enumerate(ks[:len(cs)]):
        want = bezier(kn, p, k, n)
        for b in range(p + 1):
            ctx.eq([cs[e][a, b] for a in range(p + 1)],
                   want[b][k - p:k + 1], 'extraction operator')
            ctx.eq(sum(cs[e][a, b] for a in range(p + 1)), 1.0,
                   'partition of unity')


class Patch:
    """Patch and its model."""

    def __init__(self, ctx, degrees, patterns, nurbs=False, sym_cps=False):
        import sfepy.discrete.iga as iga
        from sfepy.discrete.iga.domain import NurbsPatch
        self.ctx = ctx
        self.degrees = degrees
        self.dim = dim = len(degrees)
        self.kn = [knots_1d(ctx, pt, p, False)
                   for p, pt in zip(degrees, patterns)]
        self.ks = [spans(kn, p, pt)
                   for kn, p, pt in zip(self.kn, degrees, patterns)]
        self.ns = [len(kn) - p - 1 for kn, p in zip(self.kn, degrees)]
        self.n_els = [len(k) for k in self.ks]
        self.nod = int(np.prod(self.ns))
        self.knots = tuple(np.array(k) for k in self.kn)
        with ctx.concrete():
            self.cs = iga.compute_bezier_extraction(
                self.knots, np.array(degrees))
            self.conn, self.bconn = iga.create_connectivity(
                self.n_els, self.knots, np.array(degrees))
            self.ccs = iga.combine_bezier_extraction(self.cs)
        # control points: skewed grid, dyadic
        g = np.array(list(itertools.product(*[range(n) for n in self.ns])),
                     dtype=float)
        G = np.eye(dim) + 0.25 * np.arange(dim * dim).reshape(dim, dim) % 0.75
        cps = g @ G.T
        r = (np.arange(g.size).reshape(g.shape) * 7 % 5 - 2) / 16.0
        cps = self.cps0 = cps + r
        self.w0 = 1.0 + (np.arange(self.nod) * 3 % 4) / 4.0 \
            if nurbs else np.ones(self.nod)
        if sym_cps:
            cps = cps + ctx.real('P', cps.shape, -0.0625, 0.0625)
        self.cps = cps if sym_cps else ctx.const(cps)
        if nurbs == 'sym':
            self.w = ctx.real('w', self.nod, 0.5, 2)
        elif nurbs == 'one':
            w = np.array(1.0 + (np.arange(self.nod) * 3 % 4) / 4.0,
                         dtype=object if ctx.sym else float)
            w[np.asarray(self.conn)[-1][len(self.conn[0]) // 2]] = \
                ctx.real('w', None, 0.5, 2)
            self.w = fe.ctx_wrap(ctx, w)
        elif nurbs:
            self.w = ctx.const(1.0 + (np.arange(self.nod) * 3 % 4) / 4.0)
        else:
            self.w = ctx.const(np.ones(self.nod))
        cs = [ctx.const(np.asarray(c)) for c in self.cs]
        self.patch = NurbsPatch(self.knots, np.array(degrees), self.cps,
                                self.w, cs, np.asarray(self.conn))

    def funs(self, u, cell, diff=None):
        """Basis functions in the given element (or their derivatives with
        respect to a reference coordinate), all of them."""
        vals = []
        for ia, (u1, kn, p, ks, n, ie) in enumerate(
                zip(u, self.kn, self.degrees, self.ks, self.ns, cell)):
            one = [[float(i == j) for j in range(n)] for i in range(n)]
            k = ks[ie]
            if ia == diff:
                # the blossom is affine in each of its arguments
                hi, lo = [blossom(one, kn, p, k, [u1] * (p - 1) + [e])
                          for e in (kn[k + 1], kn[k])]
                vals.append([p * (x - y) for x, y in zip(hi, lo)])
            else:
                vals.append(blossom(one, kn, p, k, [u1] * p))
        out = []
        for idx in itertools.product(*[range(n) for n in self.ns]):
            v = 1.0
            for a, i in enumerate(idx):
                v = v * vals[a][i]
            out.append(v)
        return out

    def rational_der(self, u, cell):
        N = self.funs(u, cell)
        W = sum(n * w for n, w in zip(N, self.w))
        out = []
        for k in range(self.dim):
            dN = self.funs(u, cell, k)
            dW = sum(n * w for n, w in zip(dN, self.w))
            out.append([(d * w - n * w / W * dW) / W
                        for d, n, w in zip(dN, N, self.w)])
        return np.array(out, dtype=object).T

    def rational(self, u, cell):
        N = self.funs(u, cell)
        W = sum(n * w for n, w in zip(N, self.w))
        return [n * w / W for n, w in zip(N, self.w)]

    def glob(self, xi, cell):
        """Parameters of reference coordinates."""
        out = []
        for x, kn, ks, ie in zip(xi, self.kn, self.ks, cell):
            a, b = kn[ks[ie]], kn[ks[ie] + 1]
            out.append(a + (b - a) * x)
        return out

    def cells(self):
        return list(itertools.product(*[range(n) for n in self.n_els]))


def xi_sym(ctx, dim, name='xi', n=1):
    return ctx.real(name, (n, dim), 0, 1)


def h_variable(ctx, degrees, patterns, nurbs=False, nc=1, only=None):
    """Variable and points by the compiled and the reference code."""
    import sfepy.discrete.iga.iga as iga
    from sfepy.discrete.iga.extmods import igac
    P = Patch(ctx, degrees, patterns, nurbs)
    dim = P.dim
    xi = xi_sym(ctx, dim)
    U = ctx.real('U', (P.nod, nc), -1, 1)
    ncell = len(P.cells())
    sel = (np.arange(ncell, dtype=np.uint32) if only is None
           else np.array(only, dtype=np.uint32))
    pt = P.patch
    coors, vals, dets = igac.eval_variable_in_qp(
        U, xi, pt.cps, pt.weights, pt.degrees, pt.cs, pt.conn, sel)
    coors, vals = np.asarray(coors), np.asarray(vals)
    ctx.same(vals.shape, (len(sel), nc), 'number of values')
    for i, ie in enumerate(sel):
        cell = P.cells()[ie]
        R = P.rational(P.glob(xi[0], cell), cell)
        ctx.eq(vals[i], [sum(r * U[a, c] for a, r in enumerate(R))
                         for c in range(nc)], 'values')
        ctx.eq(coors[i], [sum(r * P.cps[a, c] for a, r in enumerate(R))
                          for c in range(dim)], 'points')


def h_mapping(ctx, degrees, patterns, nurbs=False, cell=0, ref=True,
              sym_cps=False, fixed=None):
    """Basis, gradients and Jacobians of one element."""
    import sfepy.discrete.iga.iga as iga
    from sfepy.discrete.iga.extmods import igac
    from sfepy.discrete.iga.mappings import IGMapping
    P = Patch(ctx, degrees, patterns, nurbs, sym_cps)
    dim = P.dim
    xi = xi_sym(ctx, dim)
    if fixed is not None:
        xi = np.array([[x if f is None else f
                        for x, f in zip(xi[0], fixed)]],
                      dtype=object if ctx.sym else float)
        xi = fe.ctx_wrap(ctx, xi)
    pt = P.patch
    cell = cell % len(P.cells())
    ic = P.cells()[cell]

    u = P.glob(list(xi[0]), ic)
    R = P.rational(u, ic)
    ec = np.asarray(P.conn)[cell]
    dR = P.rational_der(u, ic)
    J = [[sum(P.cps[a, i] * dR[a, k] for a in ec) for k in range(dim)]
         for i in range(dim)]
    D = mdet(J)
    ctx.assume(D >= 0.01)
    bfs, bfgs, dets = igac.eval_mapping_data_in_qp(
        xi, pt.cps, pt.weights, pt.degrees, pt.cs, pt.conn,
        np.array([cell], dtype=np.uint32))
    bf, bfg = np.asarray(bfs)[0, 0, 0], np.asarray(bfgs)[0, 0]
    dt = np.asarray(dets)[0, 0, 0, 0]
    check(ctx, P, bf, bfg, dt, R, dR, J, D, ec, '')
    if ref:
        con = igac.CNURBSContext(pt.cps, pt.weights, pt.degrees, pt.cs,
                                 pt.conn)
        con.iel = cell
        b3 = np.asarray(con.evaluate(xi))
        g3 = np.asarray(con.evaluate(xi, diff=True))
        ctx.same((b3.shape, g3.shape), ((1, 1, len(ec)), (1, dim, len(ec))),
                 'shape of the basis')
        ctx.eq(b3[0, 0], bf, 'basis (basis context)')
        ctx.eq(g3[0], bfg, 'gradient (basis context)')
        cs = [np.asarray(c)[:, 0] for c in P.patch.cs]
        b2, g2, d2 = iga.eval_mapping_data_in_qp(
            xi, pt.cps, pt.weights, np.array(degrees), cs, pt.conn,
            [cell])
        check(ctx, P, np.asarray(b2)[0, 0, 0], np.asarray(g2)[0, 0],
              np.asarray(d2)[0, 0, 0, 0], R, dR, J, D, ec,
              ' (reference code)')


def check(ctx, P, bf, bfg, dt, R, dR, J, D, ec, tag):
    dim = P.dim
    ctx.eq(bf, [R[a] for a in ec], 'basis' + tag)
    ctx.eq(dt, D, 'Jacobian' + tag)
    # the same by the claim above
    ctx.assume(dt >= 0.009)
    for k in range(dim):
        ctx.eq([sum(J[i][k] * bfg[i, j] for i in range(dim))
                for j in range(len(ec))], [dR[a, k] for a in ec],
               'gradient' + tag)


def h_call(ctx, degrees, patterns, nurbs=False, field=True):
    """Patch evaluated in tensor product parameters."""
    P = Patch(ctx, degrees, patterns, nurbs)
    dim = P.dim
    pars = []
    where = []
    for a in range(dim):
        kn = P.kn[a]
        u = ctx.real('u%d' % a, 2 if a == 0 else 1, kn[0], kn[-1])
        pars.append(u)
        wh = []
        for v in u:
            for e, k in enumerate(P.ks[a]):
                if bool(v <= kn[k + 1]):
                    break
            wh.append(e)
        where.append(wh)
    U = ctx.real('U', (P.nod, 2), -1, 1) if field else None
    if field:
        out = P.patch.evaluate(U, *pars)
    else:
        out = P.patch(*pars)
    out = np.asarray(out)
    grid = list(itertools.product(*[range(len(u)) for u in pars]))
    ctx.same(out.shape, (len(grid), 2 if field else dim), 'shape')
    V = U if field else P.cps
    for i, ig in enumerate(grid):
        cell = [where[a][g] for a, g in enumerate(ig)]
        R = P.rational([pars[a][g] for a, g in enumerate(ig)], cell)
        ctx.eq(out[i], [sum(r * V[a, c] for a, r in enumerate(R))
                        for c in range(V.shape[1])], 'values')


def h_bezier(ctx, degrees, patterns, nurbs=True):
    """The Bezier mesh describes the same body."""
    import sfepy.discrete.iga as iga
    P = Patch(ctx, degrees, patterns, nurbs, sym_cps=True)
    dim = P.dim
    bc, bw = iga.compute_bezier_control(P.cps, P.w, P.ccs, P.conn, P.bconn)
    bc, bw = np.asarray(bc), np.asarray(bw)
    bconn = np.asarray(P.bconn)
    xi = xi_sym(ctx, dim)[0]
    ctx.same(len(bc), int(np.prod([n * p + 1 for n, p in
                                   zip(P.n_els, degrees)])),
             'number of Bezier points')
    for ie, cell in enumerate(P.cells()):
        N = P.funs(P.glob(xi, cell), cell)
        W = sum(n * w for n, w in zip(N, P.w))
        B = [1.0]
        for x, p in zip(xi, degrees):
            B = [b * c for b in B for c in bernstein(x, p)]
        ctx.eq(sum(b * bw[k] for b, k in zip(B, bconn[ie])), W,
               'weight function')
        for c in range(dim):
            ctx.eq(sum(b * bw[k] * bc[k, c] for b, k in zip(B, bconn[ie])),
                   sum(n * w * P.cps[a, c] for a, (n, w) in
                       enumerate(zip(N, P.w))), 'points')


def h_domain(ctx, degrees, patterns, nurbs=False):
    """Topology, regions, restoring from data."""
    import sfepy.discrete.iga as iga
    from sfepy.discrete.iga.domain import IGDomain
    P = Patch(ctx, degrees, patterns, nurbs)
    dim = P.dim
    T = ctx.real('T', (P.nod, 1), -1, 1)
    dom, dom2 = make_domain(ctx, P)
    C = np.asarray(dom.mesh.coors, dtype=float)
    corners = [[k[0]] + [kn[i + 1] for i in ks]
               for kn, k, ks in [(kn, kn, ks)
                                 for kn, ks in zip(P.kn, P.ks)]]
    grid = list(itertools.product(*corners))
    conn = np.asarray(dom.mesh.get_conn(dom.mesh.descs[0]))
    ctx.same(C.shape, (len(grid), dim), 'vertices of the topology')
    ref = [np.array(c) for c in ([(0,), (1,)] if dim == 1 else
                                 [(0, 0), (1, 0), (1, 1), (0, 1)]
                                 if dim == 2 else
                                 [(0, 0, 0), (1, 0, 0), (1, 1, 0),
                                  (0, 1, 0), (0, 0, 1), (1, 0, 1),
                                  (1, 1, 1), (0, 1, 1)])]
    for ie, cell in enumerate(P.cells()):
        for j, r in enumerate(ref):
            u = P.glob([float(v) for v in r], cell)
            R = P.rational(u, cell)
            ctx.eq(C[conn[ie, j]], [sum(q * P.cps[a, c]
                                        for a, q in enumerate(R))
                                    for c in range(dim)], 'vertices')
    ug = np.array(list(itertools.product(*[range(len(c)) for c in corners])))
    for d, tag in [(dom, ''), (dom2, ' (restored)')]:
        ctx.eq(np.asarray(d.mesh.coors, dtype=float), C, 'vertices' + tag)
        ctx.same(sorted(d.vertex_set_bcs), sorted(
            'xi%d%d' % (a, k) for a in range(dim) for k in (0, 1)),
            'names of the sides' + tag)
        ok = True
        for a in range(dim):
            for k in (0, 1):
                want = np.where(ug[:, a] == k * (len(corners[a]) - 1))[0]
                got = d.vertex_set_bcs.get('xi%d%d' % (a, k), [])
                ctx.same(sorted(int(v) for v in got), want.tolist(),
                         'vertices of the sides' + tag)
                ok = ok and sorted(int(v) for v in got) == want.tolist()
        if dim > 1 and ok:
            fields(ctx, P, d, T, tag)


def fields(ctx, P, dom, T, tag):
    """Degrees of freedom of the sides and their values there."""
    from sfepy.discrete.common.fields import Field
    from sfepy.discrete.iga.extmods import igac
    import sfepy.discrete.projections as pj
    dim = P.dim
    idx = np.array(list(itertools.product(*[range(n) for n in P.ns])))
    omega = dom.create_region('Omega', 'all')
    field = Field.from_args('f', np.float64, 'vector', omega,
                            approx_order=None, space='H1',
                            poly_space_basis='iga')
    ctx.same(sorted(int(v) for v in np.unique(np.asarray(
        field.get_dofs_in_region(omega)))), list(range(P.nod)),
        'DOFs of the domain' + tag)
    tt = ctx.real('s' + tag, dim, 0, 1)
    for a in range(dim):
        for k in (0, 1):
            name = 'xi%d%d' % (a, k)
            reg = dom.create_region(name, 'vertices of set ' + name, 'facet')
            want = np.where(idx[:, a] == k * (P.ns[a] - 1))[0]
            dofs = np.unique(np.asarray(field.get_dofs_in_region(reg)))
            ctx.same([int(v) for v in dofs], want.tolist(),
                     'DOFs of a side' + tag)
            cells = [i for i, c in enumerate(P.cells())
                     if c[a] == k * (P.n_els[a] - 1)]
            fis = np.asarray(reg.get_facet_indices())
            ctx.same(sorted(int(v) for v in fis[:, 0]), cells,
                     'cells of a side' + tag)
            ec = np.asarray(field.get_econn('facet', reg)).tolist()
            # other DOFs have no influence on the side
            xi = list(tt)
            xi[a] = float(k)
            xi = oa(ctx, [xi])
            Z = oa(ctx, [[0.0] if i in set(int(d) for d in dofs)
                         else list(T[i]) for i in range(P.nod)])
            pt = dom.nurbs
            for i, ie in enumerate(fis[:, 0]):
                v = igac.eval_variable_in_qp(
                    Z, xi, pt.cps, pt.weights, pt.degrees, pt.cs, pt.conn,
                    np.array([ie], dtype=np.uint32))[1]
                ctx.eq(np.asarray(v), [[0.0]], 'other DOFs' + tag)
                ctx.same(sorted(ec[i]), [int(d) for d in np.asarray(
                    P.conn)[ie] if d in want], 'facet DOFs' + tag)
            project(ctx, P, field, reg, a, k, fis, want, tag)


def project(ctx, P, field, reg, a, k, fis, want, tag):
    """Projected functions of the space are reproduced."""
    import sfepy.discrete.projections as pj
    dim = P.dim
    save = P.w
    P.w = [float(v) for v in P.w0]
    order = 2 * max(p for i, p in enumerate(P.degrees))
    c = ctx.real('c%d%d%s' % (a, k, tag), (len(want), 2), -1, 1)
    qps, fb, dets = field.get_surface_basis(reg)
    qps = [np.asarray(q, dtype=float) for q in qps]
    fb = [np.asarray(f, dtype=float) for f in fb]
    pos = {int(d): i for i, d in enumerate(want)}
    ec = np.asarray(field.get_econn('facet', reg)).tolist()
    vals = []
    from sfepy.discrete.integrals import Integral
    # reference points of the side, found by their physical coordinates
    for i, (ie, ifa) in enumerate(fis):
        cell = P.cells()[ie]
        for q, f in zip(qps[i], fb[i]):
            full = np.zeros(P.nod)
            full[ec[i]] = f
            x = find(P, cell, a, k, q)
            ctx.true(x is not None, 'point of the side' + tag)
            if x is None:
                P.w = save
                return
            R = P.rational(P.glob(x, cell), cell)
            ctx.eq(full, np.array([float(r) for r in R]),
                   'basis on the side' + tag, 1e-8)
            vals.append([sum(float(R[d]) * c[pos[d], j] for d in pos)
                         for j in range(2)])
    P.w = save
    rec = []
    old = pj.solve

    def solve(mtx, rhs):
        rec.append((mtx, rhs))
        return np.zeros(len(want))
    pj.solve = solve
    try:
        with np.errstate(all='ignore'):
            pj.project_to_facets(reg, lambda x: oa(ctx, vals), 2, field)
    finally:
        pj.solve = old
    ctx.same(len(rec), 2, 'number of components' + tag)
    for j, (mtx, rhs) in enumerate(rec):
        M = mtx.toarray() if hasattr(mtx, 'toarray') else mtx
        M = np.asarray(M)
        ctx.eq([sum(M[r, s] * c[s, j] for s in range(len(want)))
                for r in range(len(want))], np.asarray(rhs),
               'projection' + tag, 1e-8)
        ctx.true(bool(np.linalg.matrix_rank(M.astype(float))
                      == len(want)), 'the projection is unique' + tag)


def find(P, cell, a, k, q):
    """Reference coordinates of a point of a side (Newton, concrete)."""
    x = np.array([0.5] * P.dim)
    x[a] = k
    free = [i for i in range(P.dim) if i != a]
    for it in range(50):
        u = P.glob(list(x), cell)
        R = np.array([float(v) for v in P.rational(u, cell)])
        r = R @ P.cps0 - q
        if np.abs(r).max() < 1e-13:
            return [float(v) for v in x]
        J = (np.array(P.rational_der(u, cell), dtype=float).T @ P.cps0)[free]
        x[free] -= np.linalg.lstsq(J.T, r, rcond=None)[0]
    return [float(v) for v in x] if np.abs(r).max() < 1e-10 else None


def make_domain(ctx, P):
    import sfepy.discrete.iga as iga
    from sfepy.discrete.iga.domain import IGDomain
    conc = P.cps0, P.w0
    bc, bw = iga.compute_bezier_control(conc[0], conc[1], P.ccs, P.conn,
                                        P.bconn)
    regs = iga.get_patch_box_regions(P.n_els, list(P.degrees))
    dom = IGDomain.from_data(P.knots, np.array(P.degrees), conc[0], conc[1],
                             P.cs, P.conn, bc, bw, P.bconn, regs)
    dom2 = IGDomain.from_data(*dom._get_io_data())
    return dom, dom2


def warm():
    from symx import driver
    h_mapping(driver.Ctx('conc'), (2, 1), ((1,), ()), True)


def cases(tier):
    from symx.runner import Case
    out = []
    for p in (1, 2, 3, 4):
        for pattern in [(), (1,), (1, 1), (2,), (2, 1), (1, 2), (p,),
                        (1, 1, 1), (p, 1), (1, p), (p + 1,), (1, p + 1),
                        (1, 1, 1, 1), (2, 2), (3, 1), (1, 3)]:
            if max(pattern + (0,)) > p + 1:
                continue
            c = Case('extraction %d %s' % (p, pattern), 'h_extraction',
                     dict(degree=p, pattern=pattern))
            if c.name not in [d.name for d in out]:
                out.append(c)
    for dg, pt in PATCHES:
        for nb in (False, True, 'sym'):
            name = '%s %s %s' % (dg, pt, nb)
            big = len(dg) == 3 and (sum(dg) > 4 or nb)
            out.append(Case('variable ' + name, 'h_variable',
                            dict(degrees=dg, patterns=pt, nurbs=nb,
                                 nc=1 + (len(dg) == 2)), thorough_only=big))
            q = [0.25, 0.75, 0.5][:len(dg)]

            def mapping(tag, slow, fixed=None, w=nb):
                out.append(Case('mapping %s%s' % (name, tag), 'h_mapping',
                                dict(degrees=dg, patterns=pt, nurbs=w,
                                     cell=-1, fixed=fixed),
                                thorough_only=slow))
            # one symbolic coordinate at a time
            one = [[None if i == k else v for i, v in enumerate(q)]
                   for k in range(len(dg))]
            if len(dg) == 1:
                mapping('', nb == 'sym' and dg[0] > 1)
            elif nb == 'sym':
                if len(dg) == 2:
                    mapping(' w', sum(dg) > 3, q, 'one')
            elif not nb and (len(dg) == 2 or max(dg) == 1) \
                    or nb and dg == (1, 1):
                mapping('', False)
            elif not nb:
                for k, f in enumerate(one):
                    mapping(' %d' % k, sum(dg) > 4 and k > 0, f)
            elif len(dg) == 2:
                for k, f in enumerate(one):
                    mapping(' %d' % k, max(dg) > 2 and k > 0, f)
            elif max(dg) == 1:
                mapping(' 0', False, one[0])
            out.append(Case('call ' + name, 'h_call',
                            dict(degrees=dg, patterns=pt, nurbs=nb,
                                 field=nb != 'sym'),
                            thorough_only=big or nb == 'sym'
                            and (sum(dg) > 3 or len(dg) > 2)))
            if nb:
                out.append(Case('bezier ' + name, 'h_bezier',
                                dict(degrees=dg, patterns=pt, nurbs=nb),
                                thorough_only=big))
        for nb in (False, True):
            out.append(Case('domain %s %s %s' % (dg, pt, nb), 'h_domain',
                            dict(degrees=dg, patterns=pt, nurbs=nb)))
    return out


PATCHES = [((1,), ((1,),)), ((2,), ((1,),)), ((3,), ((2, 1),)),
           ((1, 1), ((1,), ())), ((2, 1), ((1,), ())), ((2, 2), ((), (1,))),
           ((1, 3), ((1,), (1,))), ((2, 2), ((1, 2), (1,))),
           ((1, 1, 1), ((1,), (), ())), ((1, 2, 1), ((), (1,), ())),
           ((2, 1, 3), ((), (1,), ())), ((2, 2, 2), ((1,), (), ()))]
