"""Reference mappings, facet normals, physical quadrature points, caches."""
import itertools
from fractions import Fraction as Fr
import numpy as np
import fe

PROPERTY = 'C08'
BOUNDS = ('one- and two-cell meshes of all cell types with up to 6 symbolic '
          'vertex coordinates (perturbations up to 1/8, or up to degeneration '
          'for the warp check), approximation orders 1 and 2, coordinates '
          'scaled by 1 or 1e-9; two-cell histories of mapping caches')
OUTSIDE = 'NURBS mappings (see IGA), shells'

fe.MESHES.update({
    '3_6_1': ([[0, 0, 0], [1.25, 0.125, 0], [0.25, 1, 0.125],
               [0.125, 0, 1], [1.25, 0.25, 1.25], [0.25, 1.125, 1.5]],
              [[0, 1, 2, 3, 4, 5]]),
    '3_2_3': ([[0, 0, 0], [1.25, 0.125, 0.125], [0.25, 1.25, 0.25],
               [1.5, 1.25, 1]], [[0, 1, 2], [1, 3, 2]]),
    '3_2_3_1': ([[0, 0, 0], [1.25, 0.125, 0.125], [0.25, 1.25, 0.25]],
                [[0, 1, 2]]),
})


# --- independent geometry: nodal bases as polynomials -----------------------

def padd(a, b, s=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + s * v
    return out


def pmul(a, b):
    out = {}
    for k, v in a.items():
        for m, w in b.items():
            e = tuple(x + y for x, y in zip(k, m))
            out[e] = out.get(e, 0) + v * w
    return out


def pdiff(a, i):
    out = {}
    for k, v in a.items():
        if k[i]:
            e = list(k)
            e[i] -= 1
            out[tuple(e)] = out.get(tuple(e), 0) + v * k[i]
    return out


def pval(a, x):
    out = 0
    for k, v in a.items():
        t = v
        for e, y in zip(k, x):
            t = t * y**e
        out = out + t
    return out


def nodes(gd):
    """Reference vertices, as documented in geometry_element.py."""
    return {
        '1_2': [(0,), (1,)],
        '2_3': [(0, 0), (1, 0), (0, 1)],
        '2_4': [(0, 0), (1, 0), (1, 1), (0, 1)],
        '3_4': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
        '3_8': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0),
                (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
        '3_6': [(0, 0, 0), (1, 0, 0), (0, 1, 0),
                (0, 0, 1), (1, 0, 1), (0, 1, 1)],
    }[gd]


def shape_funs(gd):
    dim = int(gd[0])
    one = {(0,) * dim: 1}

    def x(i):
        e = [0] * dim
        e[i] = 1
        return {tuple(e): 1}

    def lam(ax, nod):
        """Barycentric coordinate of the simplex axes."""
        if any(nod[a] for a in ax):
            return x([a for a in ax if nod[a]][0])
        out = one
        for a in ax:
            out = padd(out, x(a), -1)
        return out
    groups = {'1_2': [(0,)], '2_3': [(0, 1)], '2_4': [(0,), (1,)],
              '3_4': [(0, 1, 2)], '3_8': [(0,), (1,), (2,)],
              '3_6': [(0, 1), (2,)]}[gd]
    out = []
    for nod in nodes(gd):
        p = one
        for ax in groups:
            p = pmul(p, lam(ax, nod))
        out.append(p)
    return out


def pint(gd, p):
    """Integral over the reference cell."""
    from c_quad import exact
    return sum(v * exact(gd, k) for k, v in p.items())


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return sum((-1)**j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]])
               for j in range(n))


def ref_volume(gd, X):
    """int det J over the reference cell."""
    N = shape_funs(gd)
    dim = int(gd[0])
    d = [[pdiff(p, i) for i in range(dim)] for p in N]
    tot = 0
    for ks in itertools.permutations(range(len(N)), dim):
        p = d[ks[0]][0]
        for i in range(1, dim):
            p = pmul(p, d[ks[i]][i])
        w = pint(gd, p)
        if w:
            tot = tot + float(w) * det([[X[k][j] for j in range(dim)]
                                        for k in ks])
    return tot


def jac(gd, X, xi):
    """J[i][j] = d x_j / d xi_i at the (float) point xi."""
    N = shape_funs(gd)
    dim = int(gd[0])
    g = [[float(pval(pdiff(p, i), [Fr(float(v)) for v in xi]))
          for i in range(dim)] for p in N]
    nc = len(X[0])
    return [[sum(g[k][i] * X[k][j] for k in range(len(N)))
             for j in range(nc)] for i in range(dim)]


def xmap(gd, X, xi):
    N = [float(pval(p, [Fr(float(v)) for v in xi])) for p in shape_funs(gd)]
    return [sum(n * x[j] for n, x in zip(N, X)) for j in range(len(X[0]))]


FACES = {
    '2_3': [(0, 1), (1, 2), (2, 0)],
    '2_4': [(0, 1), (1, 2), (2, 3), (3, 0)],
    '3_4': [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)],
    '3_8': [(0, 3, 2, 1), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6),
            (3, 0, 4, 7), (4, 5, 6, 7)],
    '3_6': [(0, 2, 1), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5)],
}


def area_vec(P):
    """Integral of the outward normal over a facet with vertices ordered
    anticlockwise when seen from outside."""
    if len(P[0]) == 2:
        a, b = P
        return [b[1] - a[1], a[0] - b[0]]

    def cross(u, v):
        return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2],
                u[0] * v[1] - u[1] * v[0]]

    def sub(a, b):
        return [x - y for x, y in zip(a, b)]
    if len(P) == 3:
        return [x * 0.5 for x in cross(sub(P[1], P[0]), sub(P[2], P[0]))]
    return [x * 0.5 for x in cross(sub(P[2], P[0]), sub(P[3], P[1]))]


def moments(fgd, P):
    """int x.n and the vector int x_0 n over a facet."""
    if fgd == '1_2':
        n = area_vec(P)
        m = [(a + b) * 0.5 for a, b in zip(*P)]
        return sum(a * b for a, b in zip(n, m)), [m[0] * v for v in n]
    N = shape_funs(fgd)
    mom = [0] * 3
    fl = 0
    r = range(len(N))
    for j in r:
        for k in r:
            if j == k:
                continue
            dd = pmul(pdiff(N[j], 0), pdiff(N[k], 1))
            a, b = P[j], P[k]
            c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
                 a[0] * b[1] - a[1] * b[0]]
            for i in r:
                w = float(pint(fgd, pmul(N[i], dd)))
                if w == 0.0:
                    continue
                for l in range(3):
                    mom[l] = mom[l] + w * P[i][0] * c[l]
                    fl = fl + w * P[i][l] * c[l]
    return fl, mom


# --- set-up ------------------------------------------------------------------

def setup(ctx, key, nsym=4, amp=0.125, scale=1.0, base=None):
    """A domain with symbolic perturbations of some coordinates."""
    with ctx.concrete():
        domain = fe.make_domain(key)
    dim = domain.shape.dim
    X0 = np.array(fe.MESHES[key][0], dtype=np.float64) \
        if base is None else np.asarray(base, dtype=np.float64)
    X = np.array(ctx.const(X0), dtype=object) if ctx.sym else X0.copy()
    ks = sorted(ctx.rng.sample(range(X0.size), min(nsym, X0.size)))
    for n, k in enumerate(ks):
        i, j = divmod(k, dim)
        X[i, j] = X[i, j] + ctx.real('x%d_%d' % (i, j), lo=-amp, hi=amp)
    if scale != 1.0:
        X = X * scale
    X = fe.ctx_wrap(ctx, X)
    domain.get_mesh_coors = lambda actual=False: X
    return domain, X


def make_field(ctx, domain, order, basis='lagrange', region='Omega'):
    from sfepy.discrete.fem import Field
    field = Field.from_args('f%d' % order, np.float64, 1,
                            domain.regions[region], approx_order=order,
                            poly_space_basis=basis)
    X = domain.get_mesh_coors()
    if ctx.sym:
        field.coors = fe.ctx_wrap(ctx, np.zeros(field.coors.shape,
                                                dtype=object))
    field.set_coors(X)
    return field


def cell_conn(domain):
    return np.asarray(domain.mesh.get_conn(domain.mesh.descs[0]))


def unit_check(ctx, bfg, Xn, dim, label):
    """Gradients of coordinates are the identity, of constants zero."""
    bfg = np.asarray(bfg)
    for i in range(dim):
        for j in range(dim):
            ctx.eq(sum(Xn[k][i] * bfg[j, k] for k in range(len(Xn))),
                   float(i == j), label)
        ctx.eq(sum(bfg[i, k] for k in range(len(Xn))), 0.0,
               label + ' (constant)')


def h_cell(ctx, key, approx, order, nsym=4, scale=1.0, basis='lagrange'):
    from sfepy.discrete import Integral
    from sfepy.discrete.common.mappings import get_physical_qps, get_jacobian
    domain, X = setup(ctx, key, nsym, scale=scale)
    dim = domain.shape.dim
    gd = domain.mesh.descs[0]
    field = make_field(ctx, domain, approx, basis)
    integral = Integral('i', order=order)
    om = domain.regions['Omega']
    geo, mapping = field.get_mapping(om, integral, 'cell')
    qp, w = integral.get_qp(gd)
    dt, vol, bf, bfg = [np.asarray(getattr(geo, n))
                        for n in ('det', 'volume', 'bf', 'bfg')]
    conn = cell_conn(domain)
    ctx.true(dt.shape == (len(conn), len(qp), 1, 1), 'shape of det')
    # nodal coordinates of the field
    xn = np.asarray(field.get_coor())
    econn = field.econn
    pq = np.asarray(get_physical_qps(om, integral).values).reshape(
        (len(conn), len(qp), dim))
    s = scale
    for e, el in enumerate(conn):
        Xe = [list(X[k]) for k in el]
        tot = sum(dt[e, q, 0, 0] for q in range(len(qp)))
        ctx.eq(tot / s**dim, ref_volume(gd, Xe) / s**dim, 'cell volume')
        ctx.eq(vol[e, 0, 0, 0] / s**dim, tot / s**dim, 'volume attribute')
        for q in range(len(qp)):
            J = jac(gd, Xe, qp[q])
            ctx.eq(dt[e, q, 0, 0] / s**dim,
                   det(J) * float(w[q]) / s**dim, 'Jacobian')
            ctx.eq([v / s for v in pq[e, q]],
                   [v / s for v in xmap(gd, Xe, qp[q])],
                   'physical quadrature points')
        for q in (0, len(qp) // 2, len(qp) - 1):
            if s == 1.0:
                Xn = [list(xn[k]) for k in econn[e]]
                unit_check(ctx, bfg[e, q], Xn, dim,
                           'gradients of linear functions')
                b = bf[0 if bf.shape[0] == 1 else e, q, 0]
                ctx.eq([sum(b[k] * Xn[k][j] for k in range(len(Xn)))
                        for j in range(dim)], list(pq[e, q]),
                       'basis and physical quadrature points')
    jj = np.asarray(get_jacobian(field, integral))
    ctx.true(jj.shape == dt.shape and all(
        a is b or a == b for a, b in zip(jj.ravel(), dt.ravel())),
        'get_jacobian')


def h_facet(ctx, key, approx, order, integration, nsym=4, scale=1.0,
            rname='Gamma'):
    from sfepy.discrete import Integral
    from sfepy.discrete.common.mappings import Mapping, get_physical_qps
    domain, X = setup(ctx, key, nsym, scale=scale)
    dim = domain.shape.dim
    gd = domain.mesh.descs[0]
    with ctx.concrete():
        if rname == 'All':
            # all facets, the inner ones from both sides
            domain.create_region('All', 'vertices of group 0', 'facet')
        reg = domain.regions[rname]
        fis = reg.get_facet_indices()
    field = make_field(ctx, domain, approx)
    domain.create_surface_group(reg)
    field.setup_surface_data(reg)
    integral = Integral('i', order=order)
    geo, mapping = field.get_mapping(reg, integral, integration)
    conn = cell_conn(domain)
    dt, nrm, vol = [np.asarray(getattr(geo, n))
                    for n in ('det', 'normal', 'volume')]
    nf, nq = dt.shape[:2]
    ctx.true(nf == len(fis), 'number of facets')
    s = scale
    with ctx.concrete():
        # facets of the region by their vertices
        cm = domain.cmesh
        cm.setup_connectivity(dim - 1, 0)
        cf = cm.get_conn(dim, dim - 1)
        fv = cm.get_conn(dim - 1, 0)
        rows = []
        for ic, ifa in fis:
            f = cf.indices[cf.offsets[ic] + ifa]
            rows.append((int(ic), sorted({
                int(v) for v in
                fv.indices[fv.offsets[f]:fv.offsets[f + 1]]})))
    pq = np.asarray(get_physical_qps(reg, integral, 's').values).reshape(
        (nf, nq, dim))
    bf = np.asarray(geo.bf)
    xn = np.asarray(field.get_coor())
    sd = field.extra_data['sd_' + reg.name]
    for k, (ic, vs) in enumerate(rows):
        el = [int(v) for v in conn[ic]]
        face = [f for f in FACES[gd] if sorted(el[i] for i in f) == vs]
        if not face:
            ctx.true(False, 'facet vertices %s' % vs)
            continue
        face = face[0]
        P = [list(X[el[i]]) for i in face]
        ref = area_vec(P)
        got = [sum(nrm[k, q, j, 0] * dt[k, q, 0, 0] for q in range(nq))
               for j in range(dim)]
        ctx.eq([g / s**(dim - 1) for g in got],
               [g / s**(dim - 1) for g in ref], 'area vector of a facet')
        ctx.eq(vol[k, 0, 0, 0] / s**(dim - 1),
               sum(dt[k, q, 0, 0] for q in range(nq)) / s**(dim - 1),
               'facet area')
        fgd = {2: '1_2', 3: '2_3', 4: '2_4'}[len(face)]
        nqf = len(integral.get_qp(fgd)[0])
        for q in range(nqf, nq):
            ctx.eq(dt[k, q, 0, 0], 0.0, 'unused quadrature points')
        m0 = [0] * (dim + 1)
        for q in range(nqf):
            n = [nrm[k, q, j, 0] for j in range(dim)]
            ctx.eq(sum(v * v for v in n), 1.0, 'unit normal')
            p = pq[k, q]
            # the facet basis gives the same point
            b = bf[0 if bf.shape[0] == 1 else k, q, 0]
            if s == 1.0:
                ctx.eq([sum(b[m] * xn[sd.econn[k, m]][j]
                            for m in range(len(b))) for j in range(dim)],
                       list(p), 'basis and physical quadrature points')
            # constant normals of straight facets; points on the facet
            if dim == 2 or len(face) == 3:
                ctx.eq(sum(n[j] * (p[j] - P[0][j]) for j in range(dim)) / s,
                       0.0, 'points in the plane of the facet')
            if k < 2:
                ctx.true(dt[k, q, 0, 0] > 0, 'positive Jacobian')
            nd = [v * dt[k, q, 0, 0] for v in n]
            for j in range(dim):
                m0[j] = m0[j] + nd[j] * p[0]
                m0[dim] = m0[dim] + nd[j] * p[j]
        fl, mom = moments(fgd, P)
        ctx.eq([v / s**dim for v in m0],
               [v / s**dim for v in mom + [fl]], 'flux through a facet')
        if integration == 'facet_extra' and s == 1.0 and k < 3:
            bfg = np.asarray(geo.bfg)
            ec = field.econn[ic]
            for q in (0, nq - 1):
                unit_check(ctx, bfg[k, q], [list(xn[m]) for m in ec], dim,
                           'facet gradients of linear functions')


def h_warp(ctx, key, base=None):
    """Wrong orientations or degenerate cells are reported, and only these."""
    from sfepy.discrete import Integral
    domain, X = setup(ctx, key, 0)
    dim = domain.shape.dim
    gd = domain.mesh.descs[0]
    conn = cell_conn(domain)
    X = np.array(X)
    for j in range(dim):
        X[len(X) - 1, j] = ctx.real('p%d' % j, lo=-2.0, hi=2.0)
    X = fe.ctx_wrap(ctx, X)
    domain.get_mesh_coors = lambda actual=False: X
    field = make_field(ctx, domain, 1)
    integral = Integral('i', order=2)
    qp, _ = integral.get_qp(gd)
    ok = ctx.And(*[det(jac(gd, [list(X[k]) for k in el], x)) > 0
                   for el in conn for x in qp])
    try:
        field.get_mapping(domain.regions['Omega'], integral, 'cell')
    except ValueError as exc:
        ctx.true('warp' in str(exc), 'kind of the error')
        ctx.true(ctx.Not(ok), 'warp violation without a wrong Jacobian')
    else:
        ctx.true(ok, 'unreported warp violation')


ROT = {
    'gen': None,
    'up': [[0, 0, 0.5], [1.25, 0.125, 0.5], [1.5, 1.25, 0.5], [0.125, 1, 0.5]],
    'down': [[0, 0, 0.5], [0.125, 1, 0.5], [1.5, 1.25, 0.5],
             [1.25, 0.125, 0.5]],
    'yz': [[0.5, 0, 0], [0.5, 1.25, 0.125], [0.5, 1.5, 1.25],
           [0.5, 0.125, 1]],
    'zy': [[0.5, 0, 0], [0.5, 0.125, 1], [0.5, 1.5, 1.25],
           [0.5, 1.25, 0.125]],
    'xz': [[0, 0.5, 0], [0.125, 0.5, 1], [1.5, 0.5, 1.25],
           [1.25, 0.5, 0.125]],
}


def h_lower(ctx, key, ori, scale=1.0, approx=1, plane=True):
    """Cells of a lower dimension: lengths and areas are those in space."""
    from sfepy.discrete import Integral
    base = ROT[ori] if ori in ROT else ori
    n = len(fe.MESHES[key][0])
    with ctx.concrete():
        domain = fe.make_domain(key)
    dim = domain.shape.dim
    X0 = np.array(fe.MESHES[key][0] if base is None
                  else base, dtype=float)[:n]
    if ori != 'gen' and key.startswith('3_2_3'):
        X0 = X0[:3]
    X = np.array(ctx.const(X0), dtype=object) if ctx.sym else X0.copy()
    t = [ctx.real('t%d' % i, lo=-0.125, hi=0.125) for i in range(3)]
    if key.startswith('3_2_4'):
        # Keep the cell planar: move a vertex within the plane.
        a, b = X0[1] - X0[0], X0[3] - X0[0]
        for j in range(dim):
            if ori == 'gen':
                X[2, j] = X0[0, j] + (1.0 + t[0]) * float(a[j]) \
                    + (1.0 + t[1]) * float(b[j])
            else:
                X[2, j] = X[2, j] + t[0] * float(a[j]) + t[1] * float(b[j])
    elif key.startswith('3_2_3') and plane and ori == 'gen':
        for j in range(dim):
            X[2, j] = X[2, j] + t[0] * float(X0[1, j] - X0[0, j]) \
                + t[1] * float(X0[2, j] - X0[0, j])
    else:
        free = range(dim) if ori == 'gen' else \
            [j for j in range(dim) if np.ptp(X0[:, j]) > 0]
        for i, j in enumerate(free):
            X[1, j] = X[1, j] + t[0] * (i + 1.0)
    X = fe.ctx_wrap(ctx, X * scale)
    domain.get_mesh_coors = lambda actual=False: X
    field = make_field(ctx, domain, approx)
    gd = domain.mesh.descs[0]
    integral = Integral('i', order=2)
    geo, _ = field.get_mapping(domain.regions['Omega'], integral, 'cell')
    dt = np.asarray(geo.det)
    qp, w = integral.get_qp(gd)
    s = scale
    bfg = np.asarray(geo.bfg)
    for e, el in enumerate(cell_conn(domain)):
        Xe = [list(X[k]) for k in el]
        for q in range(len(qp)):
            J = jac(gd, Xe, qp[q])
            g2 = det([[sum(a * b for a, b in zip(r, c)) for c in J]
                      for r in J])
            d = dt[e, q, 0, 0] / float(w[q])
            k = len(J)
            ctx.eq(d * d / s**(2 * k), g2 / s**(2 * k), 'metric')
            ctx.true(d > 0, 'positive Jacobian')
            # the tangential gradients reproduce the metric
            if s == 1.0 and q == 0 and approx == 1:
                g = bfg[e, q]
                for a in range(len(el)):
                    for b in range(a):
                        # |x_a - x_b|^2 = sum_j (d_j applied twice)
                        pass
                ctx.eq(tang(g, Xe), metric_id(len(J)), 'tangential gradients')


def tang(g, Xe):
    """G^T G for G_jk = sum_a x_a,k d_j phi_a: the identity when the local
    frame is orthonormal."""
    n = len(g)
    G = [[sum(Xe[a][k] * g[j, a] for a in range(len(Xe)))
          for k in range(len(Xe[0]))] for j in range(n)]
    return np.array([sum(p * q for p, q in zip(G[i], G[j]))
                     for i in range(n) for j in range(i + 1)])


def metric_id(n):
    return [float(i == j) for i in range(n) for j in range(i + 1)]


def h_cache(ctx, key, hist):
    """Cached mappings are those of the current (or saved) coordinates and
    of the right quadrature and region."""
    from sfepy.discrete import Integral
    domain, X = setup(ctx, key, 2)
    dim = domain.shape.dim
    gd = domain.mesh.descs[0]
    with ctx.concrete():
        domain.create_region('First', 'cell 0')
    field = make_field(ctx, domain, 1)
    c = np.full((1, dim), 0.125)
    ints = {'a': Integral('i', order=1), 'b': Integral('i', order=2),
            'c': Integral('i', coors=c, weights=np.array([1.0])),
            'd': Integral('i', coors=c + 0.125, weights=np.array([0.5])),
            'e': Integral('i', coors=c + 0.125, weights=np.array([0.25]),
                          order=2)}
    cur, saved = [X], {}
    cache = {}
    domain.get_mesh_coors = lambda actual=False: cur[0]
    field.clear_mappings(clear_all=True)
    conn = cell_conn(domain)
    n = 0
    for op in hist.split():
        if op == 'move':
            n += 1
            Y = np.array(cur[0])
            Y[-1, 0] = Y[-1, 0] + ctx.real('d%d' % n, lo=0, hi=0.125)
            cur[0] = fe.ctx_wrap(ctx, Y)
            field.clear_mappings()
            cache = {}
        elif op == 'save':
            field.save_mappings()
            saved = dict(cache)
        elif op == 'clear':
            field.clear_mappings(clear_all=True)
            cache, saved = {}, {}
        else:
            get_saved = op.endswith('!')
            ii, rn = op.rstrip('!').split('.')
            reg = domain.regions[rn]
            geo, _ = field.get_mapping(reg, ints[ii], 'cell',
                                       get_saved=get_saved)
            k = (rn, ii)
            if get_saved and k in saved:
                Z = saved[k]
            else:
                Z = cur[0]
                cache[k] = Z
            qp, w = ints[ii].get_qp(gd)
            dt = np.asarray(geo.det)
            cells = conn[:1] if rn == 'First' else conn
            ctx.true(dt.shape[:2] == (len(cells), len(qp)), 'cells, points')
            for e, el in enumerate(cells):
                Xe = [list(Z[m]) for m in el]
                for q in range(len(qp)):
                    ctx.eq(dt[e, q, 0, 0],
                           det(jac(gd, Xe, qp[q])) * float(w[q]),
                           'mapping after %s' % hist)
            bf = np.asarray(geo.bf)
            N = shape_funs(gd)
            for q in range(len(qp)):
                ctx.eq(list(bf[0, q, 0]), [
                    float(pval(p, [Fr(float(v)) for v in qp[q]]))
                    for p in N], 'basis after %s' % hist)


def h_nodal_normals(ctx, key, approx=1):
    """Computing the nodal normals leaves other integrals alone."""
    from sfepy.discrete import Integral
    from sfepy.discrete.fem.utils import compute_nodal_normals
    domain, X = setup(ctx, key, 1)
    gd = domain.mesh.descs[0]
    dim = domain.shape.dim
    reg = domain.regions['Gamma']
    field = make_field(ctx, domain, approx)
    nods = field.get_dofs_in_region(reg)
    nn = np.asarray(compute_nodal_normals(nods, reg, field))
    fis = reg.get_facet_indices()
    conn = cell_conn(domain)
    ctx.true(nn.shape == (len(nods), dim), 'nodal normals')
    integral = Integral('i', order=1)
    domain.create_surface_group(reg)
    geo, _ = field.get_mapping(reg, integral, 'facet')
    dt = np.asarray(geo.det)
    for k, (ic, ifa) in enumerate(fis):
        el = [int(v) for v in conn[ic]]
        vs = domain.geom_els[gd].get_surface_entities()[ifa]
        a = area_vec([list(X[el[i]]) for i in vs])
        tot = sum(dt[k, q, 0, 0] for q in range(dt.shape[1]))
        ctx.eq(tot * tot, sum(x * x for x in a), 'area after normals')


def warm():
    from symx import driver
    for key in ('2_3', '2_4_1', '3_4_1', '3_8_1'):
        ctx = driver.Ctx('conc')
        h_cell(ctx, key, 1, 2)
        ctx = driver.Ctx('conc')
        h_facet(ctx, key, 1, 2, 'facet')


def cases(tier):
    from symx.runner import Case
    out = []
    for key in ('1_2', '2_3', '2_4_1', '2_4', '3_4_1', '3_4', '3_8_1', '3_8',
                '3_6_1'):
        gd = fe.mesh_desc(key)[1]
        # the Jacobian of a hexahedron has degree 2 per axis
        order = {'1_2': 1, '2_3': 1, '2_4': 2, '3_4': 1, '3_8': 2,
                 '3_6': 3}[gd]
        for approx in (1, 2):
            if gd == '3_6' and approx > 1:
                continue
            for o in sorted({order, order + 1}):
                if gd == '3_6' and o > 3:
                    continue
                big = key in ('3_8', '3_8_1') and (approx > 1 or o > order)
                out.append(Case('cell.%s.%d.%d' % (key, approx, o), 'h_cell',
                                dict(key=key, approx=approx, order=o,
                                     nsym=2 if gd in ('3_8', '3_6') else 4),
                                thorough_only=big))
        if key in ('2_3', '2_4_1', '3_4', '3_8_1'):
            out.append(Case('cell.%s.small' % key, 'h_cell', dict(
                key=key, approx=1, order=order, nsym=1, scale=1e-9)))
            for b in ('lobatto', 'bernstein', 'serendipity'):
                pass
    for key in ('2_3', '2_4', '3_4_1', '3_4', '3_8_1', '3_6_1'):
        gd = fe.mesh_desc(key)[1]
        for approx in (1, 2):
            for integ in ('facet', 'facet_extra'):
                if gd == '3_6' and (approx > 1 or integ != 'facet'):
                    continue
                for rn in ('Gamma', 'All'):
                    if rn == 'All' and key not in ('2_3', '2_4', '3_4'):
                        continue
                    out.append(Case('%s.%s.%d.%s' % (integ, key, approx, rn),
                                    'h_facet', dict(
                                        key=key, approx=approx, order=2,
                                        integration=integ, rname=rn,
                                        nsym=1 if gd == '3_8' else 2),
                                    thorough_only=gd == '3_8'
                                    and approx > 1))
        out.append(Case('facet.%s.small' % key, 'h_facet', dict(
            key=key, approx=1, order=2, integration='facet', nsym=1,
            scale=1e-9)))
    for key in ('1_2_1', '2_3_1', '2_4_1', '3_4_1', '3_8_1', '1_2', '2_3',
                '2_4', '3_4'):
        out.append(Case('warp.%s' % key, 'h_warp', dict(key=key)))
    for key in ('3_2_4_1', '3_2_3_1'):
        for ori in ROT:
            for s in (1.0, 1e-9):
                if (key, ori, s) == ('3_2_3_1', 'gen', 1e-9):
                    continue
                out.append(Case('lower.%s.%s%s' % (
                    key, ori, '' if s == 1 else '.small'), 'h_lower',
                    dict(key=key, ori=ori, scale=s)))
    out.append(Case('lower.3_2_3_1.gen.out', 'h_lower', dict(
        key='3_2_3_1', ori='gen', plane=False), thorough_only=True))
    for s in (1.0, 1e-9):
        out.append(Case('lower.2_1_2%s' % ('' if s == 1 else '.small'),
                        'h_lower', dict(key='2_1_2', ori='gen', scale=s)))
    for key in ('2_3', '2_4', '3_4'):
        for k, hist in enumerate((
                'a.Omega move a.Omega a.Omega',
                'a.Omega save move a.Omega! a.Omega b.Omega! b.Omega',
                'a.Omega a.First b.First b.Omega',
                'c.Omega d.Omega a.Omega e.Omega b.Omega c.First',
                'a.Omega save move a.Omega save a.Omega! clear a.Omega!',
                'd.Omega save move c.Omega! d.Omega! d.Omega',
                'a.Omega save b.Omega move b.Omega! a.Omega! b.Omega',
                'a.Omega save clear a.Omega! save a.First move a.First!')):
            out.append(Case('cache.%s.%d' % (key, k), 'h_cache',
                            dict(key=key, hist=hist)))
    for key in ('2_3_1', '2_4'):
        out.append(Case('normals.%s' % key, 'h_nodal_normals',
                        dict(key=key)))
    return out
