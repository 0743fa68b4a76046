"""Mesh refinement: uniform refinement of cells and local refinement with
hanging nodes."""
import itertools
import numpy as np
import fe
from c_conform import GEO, rotations, linear

PROPERTY = 'C18'
BOUNDS = ('uniform refinement: meshes of 1-3 cells of each kind in various '
          'local numberings with any vertex coordinates; hanging nodes: '
          'meshes of 2-8 (quick), 27 cells, one of them in any rotation, '
          'sets of refined cells, any point of each interface, any DOFs, '
          'orders 1-3')
OUTSIDE = ('non-structured meshes with hanging nodes, more than one level of '
           'difference of neighbours, refinement of several cell kinds, '
           'wedges')
ASSUMPTIONS = ['centroids of mesh entities are the means of their vertices',
               'incidences of mesh entities are correct (C09)']

EDGES = {'1_2': [], '2_3': [(0, 1), (1, 2), (2, 0)],
         '2_4': [(0, 1), (1, 2), (2, 3), (3, 0)],
         '3_4': [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
         '3_8': [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7),
                 (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]}


class CM(object):
    """Mesh connectivity of the real mesh with centroids in symbolic
    coordinates."""

    def __init__(self, ctx, cm, X):
        self._cm, self._X, self._ctx = cm, X, ctx
        self.tdim = cm.tdim
        self.cell_groups = np.array(cm.cell_groups)

    def get_conn(self, d1, d2):
        if d2:
            self._cm.setup_connectivity(d1, d2)
        return self._cm.get_conn(d1, d2)

    def get_centroids(self, dim):
        if dim < self.tdim:
            self._cm.setup_connectivity(dim, 0)
        c = self._cm.get_conn(dim, 0)
        out = []
        for k in range(len(c.offsets) - 1):
            vs = c.indices[c.offsets[k]:c.offsets[k + 1]]
            out.append([sum(self._X[v, j] for v in vs) / len(vs)
                        for j in range(self._X.shape[1])])
        return fe.ctx_wrap(self._ctx, np.array(
            out, dtype=object if self._ctx.sym else float))


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    return sum(M[0][j] * (M[1][(j + 1) % 3] * M[2][(j + 2) % 3]
                          - M[1][(j + 2) % 3] * M[2][(j + 1) % 3])
               for j in range(3))


MESHES = {
    '1_2': ([[0.], [1], [2.5], [3]], [[0, 1], [1, 2], [2, 3]]),
    '2_3': ([[0., 0], [1, 0], [0, 1], [1, 1]], [[0, 1, 2], [2, 1, 3]]),
    '2_4': ([[0., 0], [1, 0], [2, 0], [0, 1], [1, 1], [2, 1]],
            [[0, 1, 4, 3], [1, 2, 5, 4]]),
    '3_4': ([[0., 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]],
            [[0, 1, 2, 3], [1, 2, 3, 4]]),
    '3_8': ([[x, y, z] for z in (0., 1.) for y in (0., 1.)
             for x in (0., 1., 2.)],
            [[0, 1, 4, 3, 6, 7, 10, 9], [1, 2, 5, 4, 7, 8, 11, 10]]),
}


def base_mesh(gd, rot, vperm, cperm=None):
    from sfepy.discrete.fem import Mesh, FEDomain
    C, conn = MESHES[gd]
    C = np.array(C)
    conn = np.array(conn)
    if gd == '3_4' and det((C[conn[1][1:]] - C[conn[1][0]]).tolist()) < 0:
        conn[1] = conn[1][[1, 0, 2, 3]]
    if gd == '1_2':
        if cperm is not None:
            conn = conn[list(cperm)]
    else:
        conn[0] = conn[0][list(rotations(gd)[rot])]
        # renumber vertices
        p = np.arange(len(C))
        p = np.roll(p, vperm) if vperm >= 0 else p[::-1]
        D = np.empty_like(C)
        D[p] = C
        C, conn = D, p[conn]
    me = Mesh.from_data('m', C, None, [conn.astype(np.int32)],
                        [np.arange(len(conn), dtype=np.int32) + 3], [gd])
    FEDomain('d', me)
    return me, np.array(me.get_conn(gd))


def h_uniform(ctx, gd, rot=0, vperm=0, cperm=None):
    import sfepy.discrete.fem.refine as rf
    from symx import driver
    from sfepy.base.base import Struct
    with ctx.concrete():
        me, conn = base_mesh(gd, rot, vperm, cperm)
    dim = me.dim
    nv = me.n_nod
    X = ctx.real('X', (nv, dim), -2, 3)
    if gd == '1_2':
        for k in range(nv - 1):
            ctx.assume(X[k, 0] + 0.01 <= X[k + 1, 0])
    old = rf.Mesh
    res = []

    class M(object):
        @staticmethod
        def from_data(name, coors, ngroups, conns, mat_ids, descs, **kw):
            res.append(dict(coors=coors, ngroups=ngroups, conns=conns,
                            mat_ids=mat_ids, descs=descs))
            return 'mesh'
    rf.Mesh = M
    try:
        rs = np.random.RandomState(3)
        with ctx.concrete():
            Xc = me.coors + 0.2 * rs.rand(nv, dim)
            m2 = Struct(name='m', coors=Xc, n_nod=nv, n_el=len(conn),
                        cmesh=CM(driver.Ctx('conc'), me.cmesh, Xc),
                        descs=me.descs, get_conn=me.get_conn)
            getattr(rf, 'refine_' + gd)(m2)
        m2 = Struct(name='m', coors=X, n_nod=nv, n_el=len(conn),
                    cmesh=CM(ctx, me.cmesh, X), descs=me.descs,
                    get_conn=me.get_conn)
        out = getattr(rf, 'refine_' + gd)(m2)
    finally:
        rf.Mesh = old
    Yc = res[0]['coors']
    got = res[1]
    ctx.same(out, 'mesh', 'the new mesh is returned')
    Y = got['coors']
    nc = np.asarray(got['conns'][0]).astype(int)
    mat = np.asarray(got['mat_ids'][0]).astype(int)
    ns = 2 ** dim
    ctx.same(len(got['conns']), 1, 'one connectivity')
    ctx.same(list(got['descs']), [gd], 'kind of cells')
    ctx.same(nc.shape, (ns * len(conn), conn.shape[1]), 'number of cells')
    ctx.same(len(mat), len(nc), 'number of cell groups')
    ctx.same(sorted(set(nc.ravel().tolist())), list(range(len(Y))),
             'all vertices are used')
    if nc.shape != (ns * len(conn), conn.shape[1]):
        return
    for k in range(nv):
        if gd == '1_2':
            break
        ctx.eq(Y[k], X[k], 'old vertices come first')
    G = np.array(GEO.get(gd, [[0.], [1.]]), dtype=float)
    shp = linear if gd != '1_2' else \
        (lambda g, x: np.c_[1 - np.asarray(x), np.asarray(x)])
    # lattice of half-points of the reference cell
    lat = [p for p in itertools.product((0, 0.5, 1.0), repeat=dim)
           if gd not in ('2_3', '3_4') or sum(p) <= 1]
    N = shp(gd, np.array(lat).reshape((len(lat), dim)))
    # a concrete position tells which point it is; the positions are then
    # compared for any coordinates
    seen = {}
    used = set()
    for c, cell in enumerate(conn):
        pts = {}
        for p, w in zip(lat, N):
            key = frozenset((int(v), float(a)) for v, a in zip(cell, w) if a)
            pts[p] = key
        subs, pos = [], []
        for r in range(len(nc)):
            loc = []
            for v in nc[r]:
                f = [p for p, w in zip(lat, N)
                     if np.abs(w @ Xc[cell] - Yc[v]).max() < 1e-9]
                if not f:
                    loc = None
                    break
                loc.append(f[0])
                pos.append((v, f[0]))
            if loc is not None:
                subs.append((r, loc))
        ctx.same(len(subs), ns, 'number of sub-cells in a cell')
        for v, p in sorted(set(pos)):
            w = N[lat.index(p)]
            seen.setdefault(pts[p], set()).add(v)
            ctx.eq(Y[v], [sum(w[i] * X[cell[i], j] for i in range(len(cell)))
                          for j in range(dim)], 'position of a vertex')
        tot = 0.0
        boxes = []
        for r, loc in subs:
            used.add(r)
            L = np.array(loc)
            ctx.same(int(mat[r]), c + 3, 'cell group of a sub-cell')
            if gd in ('1_2', '2_3', '3_4'):
                V = det((L[1:] - L[0]).tolist())
                ctx.true(V > 0, 'orientation of a sub-cell')
                ctx.eq(V, 1.0 / ns, 'volume of a sub-cell')
                tot += V
                # any point of the sub-cell lies in the image of the cell
                vv = det([[Y[nc[r][i + 1], j] - Y[nc[r][0], j]
                           for j in range(dim)] for i in range(dim)])
                VV = det([[X[cell[i + 1], j] - X[cell[0], j]
                           for j in range(dim)] for i in range(dim)])
                ctx.eq(vv * ns, VV, 'sub-cells have equal volumes')
                boxes.append(L)
            else:
                J = [(L[k] - L[0]).tolist()
                     for k in ((1, 3) if dim == 2 else (1, 3, 4))]
                V = det(J)
                ctx.true(abs(V - 1.0 / ns) < 1e-12,
                         'orientation of a sub-cell')
                tot += V
                A = np.array(J)
                for k in range(len(L)):
                    ctx.true(np.abs(G[k] @ A + L[0] - L[k]).max() < 1e-12,
                             'shape of a sub-cell')
                boxes.append(L)
        ctx.true(abs(tot - (1 if gd not in ('2_3', '3_4') else 1.0))
                 < 1e-12 or len(subs) != ns, 'the sub-cells fill the cell')
        for a, b in itertools.combinations(boxes, 2):
            ctx.true(not overlap(a, b), 'the sub-cells do not overlap')
    ctx.same(len(used), len(nc), 'each sub-cell is in a cell')
    for key, vs in seen.items():
        ctx.same(len(vs), 1, 'one vertex per point')
    # conformity
    n_b = {}
    for r in range(len(nc)):
        for f in facets(gd, nc[r]):
            n_b[f] = n_b.get(f, 0) + 1
    c_b = {}
    for cell in conn:
        for f in facets(gd, cell):
            c_b[f] = c_b.get(f, 0) + 1
    ctx.true(max(n_b.values()) <= 2, 'facets are shared by two cells')
    ctx.same(sum(v == 1 for v in n_b.values()),
             2 ** (dim - 1) * sum(v == 1 for v in c_b.values()),
             'number of boundary facets')


def facets(gd, cell):
    if gd == '1_2':
        return [(int(v),) for v in cell]
    if gd in ('2_3', '2_4'):
        n = len(cell)
        return [tuple(sorted((int(cell[k]), int(cell[(k + 1) % n]))))
                for k in range(n)]
    if gd == '3_4':
        return [tuple(sorted(int(v) for v in f))
                for f in itertools.combinations(cell, 3)]
    F = [[0, 3, 2, 1], [0, 4, 7, 3], [0, 1, 5, 4], [4, 5, 6, 7],
         [1, 2, 6, 5], [2, 3, 7, 6]]
    return [tuple(sorted(int(cell[v]) for v in f)) for f in F]


def overlap(a, b):
    """Do the interiors of two convex cells overlap? (separating axes)"""
    a, b = np.asarray(a), np.asarray(b)
    dim = a.shape[1]
    axes = [np.eye(dim)[k] for k in range(dim)]
    for P in (a, b):
        ed = [P[i] - P[j] for i in range(len(P)) for j in range(i)]
        if dim == 2:
            axes += [np.array([-e[1], e[0]]) for e in ed]
        elif dim == 3 and len(P) == 4:
            axes += [np.cross(x, y) for x, y in
                     itertools.combinations(ed, 2)]
    if dim == 3 and len(a) == 4:
        ea = [a[i] - a[j] for i in range(4) for j in range(i)]
        eb = [b[i] - b[j] for i in range(4) for j in range(i)]
        axes += [np.cross(x, y) for x in ea for y in eb]
    for n in axes:
        if np.abs(n).max() < 1e-12:
            continue
        pa, pb = a @ n, b @ n
        if pa.max() <= pb.min() + 1e-12 or pb.max() <= pa.min() + 1e-12:
            return False
    return True


# --- hanging nodes

def boxes_mesh(shape, cell, rot, keep=None):
    """Unit cells in a structured grid, one of them with other local
    numbering."""
    from sfepy.discrete.fem import Mesh, FEDomain
    dim = len(shape)
    gd = {2: '2_4', 3: '3_8'}[dim]
    G = np.array(GEO[gd])
    nn = [k + 1 for k in shape]
    idx = {p: i for i, p in enumerate(itertools.product(
        *[range(k) for k in nn]))}
    C = np.array(sorted(idx, key=idx.get), dtype=float)
    conn = np.array([[idx[tuple(np.array(o) + g)] for g in G]
                     for o in itertools.product(*[range(k) for k in shape])],
                    dtype=np.int32)
    if keep is not None:
        conn = conn[list(keep)]
        used = np.unique(conn)
        re = np.zeros(len(C), dtype=np.int32)
        re[used] = np.arange(len(used))
        C, conn = C[used], re[conn]
    conn[cell] = conn[cell][list(rotations(gd)[rot])]
    me = Mesh.from_data('m', C, None, [conn],
                        [np.arange(len(conn), dtype=np.int32) + 3], [gd])
    me.cmesh.vertex_groups[:] = np.arange(len(C)) + 7
    return FEDomain('d', me), conn


def h_hanging(ctx, shape, refine, cell=0, rot=0, order=1, basis='lagrange',
              second=None, problem=False, keep=None):
    import sfepy.discrete.fem.refine_hanging as rh
    from sfepy.discrete.fem import Field
    from sfepy.discrete import FieldVariable, Variables
    dim = len(shape)
    gd = {2: '2_4', 3: '3_8'}[dim]
    ns = 2 ** dim
    G = np.array(GEO[gd], dtype=float)
    with ctx.concrete():
        d0, conn0 = boxes_mesh(shape, cell, rot, keep)
        flag = np.zeros(len(conn0), dtype=np.uint8)
        flag[list(refine)] = 1
        d, subs, sub_cells = rh.refine(d0, flag, subs=None,
                                       ret_sub_cells=True)
    cells = [(k, flag[k]) for k in range(len(conn0))]
    X0 = np.asarray(d0.mesh.coors)
    X = np.asarray(d.mesh.coors)
    conn = np.asarray(d.mesh.get_conn(gd)).astype(int)
    grp = np.asarray(d.cmesh.cell_groups)
    vg, vg0 = np.asarray(d.cmesh.vertex_groups), \
        np.asarray(d0.cmesh.vertex_groups)
    ctx.same(len(conn), len(conn0) + (ns - 1) * len(refine),
             'number of cells')
    sc = {int(r[0]): [int(v) for v in r[1:]] for r in sub_cells}
    ctx.same(sorted(sc), sorted(int(k) for k in refine), 'refined cells')
    allc = []
    for k in range(len(conn0)):
        if not flag[k]:
            ctx.same(conn[k].tolist(), conn0[k].tolist(), 'coarse cell')
            ctx.same(int(grp[k]), k + 3, 'group of a coarse cell')
            ctx.same(vg[conn[k]].tolist(), vg0[conn0[k]].tolist(),
                     'vertex groups of a coarse cell')
            allc.append(k)
        else:
            allc += sc[k]
            lo, hi = X0[conn0[k]].min(axis=0), X0[conn0[k]].max(axis=0)
            cs = []
            for r in sc[k]:
                a, b = X[conn[r]].min(axis=0), X[conn[r]].max(axis=0)
                ctx.true(bool((a >= lo).all() and (b <= hi).all()
                              and np.abs(b - a - 0.5).max() < 1e-12),
                         'sub-cell in its cell')
                cs.append(tuple(a))
                ctx.same(int(grp[r]), k + 3, 'group of a sub-cell')
            ctx.same(len(set(cs)), ns, 'sub-cells fill the cell')
    ctx.same(sorted(allc), list(range(len(conn))), 'cells')
    if second is not None:
        with ctx.concrete():
            flag2 = np.zeros(len(conn), dtype=np.uint8)
            flag2[list(second)] = 1
            d, subs = rh.refine(d, flag2, subs=subs)
        X = np.asarray(d.mesh.coors)
        conn = np.asarray(d.mesh.get_conn(gd)).astype(int)
    # affine maps of cells
    maps = []
    for c in conn:
        V = X[c]
        J = np.array([V[k] - V[0] for k in
                      ((1, 3) if dim == 2 else (1, 3, 4))])
        ctx.true(bool(np.linalg.det(J) > 0), 'orientation of a cell')
        ctx.true(np.abs(G @ J + V[0] - V).max() < 1e-12, 'shape of a cell')
        maps.append((V[0], np.linalg.inv(J)))
    with ctx.concrete():
        omega = d.create_region('Omega', 'all')
    field = Field.from_args('f', np.float64, 1, omega, approx_order=order,
                            space='H1', poly_space_basis=basis)
    n_nod = field.n_nod
    with ctx.concrete():
        field.substitute_dofs(subs)
    ps = field.poly_space
    econn = np.asarray(field.econn)
    T = field.basis_transform
    econn0 = np.asarray(field.econn0)
    ctx.true(field.econn0 is not None, 'original DOFs are stored')
    un = set(econn0.ravel().tolist()) - set(econn.ravel().tolist())
    if subs is not None:
        ctx.same(sorted(np.asarray(field.unused_dofs).tolist()), sorted(un),
                 'unused DOFs')
    if T is not None:
        T = np.asarray(T, dtype=float)

    def basis_at(c, x, transform=True):
        x0, Ji = maps[c]
        y = [sum((x[i] - x0[i]) * Ji[i, j] for i in range(dim))
             for j in range(dim)]
        yy = fe.ctx_wrap(ctx, np.array([y], dtype=object if ctx.sym
                                       else float))
        tr = None if T is None or not transform else T[[c]]
        b = np.asarray(ps.eval_basis(yy, transform=tr, suppress_errors=True))
        return b.reshape((-1, b.shape[-1]))[0]
    # all interfaces
    lo = np.array([X[c].min(axis=0) for c in conn])
    hi = np.array([X[c].max(axis=0) for c in conn])
    t = ctx.real('t', dim, 0, 1)
    n_pair = 0
    for a, b in itertools.combinations(range(len(conn)), 2):
        l, u = np.maximum(lo[a], lo[b]), np.minimum(hi[a], hi[b])
        if (u < l - 1e-12).any():
            continue
        fd = int((u > l + 1e-12).sum())
        if fd == 0 or fd == dim:
            ctx.true(fd == 0, 'cells do not overlap')
            continue
        if problem == 'fast' and set(econn[a]) == set(econn0[a]) and \
                set(econn[b]) == set(econn0[b]):
            continue
        x = [l[j] + (u[j] - l[j]) * t[j] if u[j] > l[j] + 1e-12 else l[j]
             for j in range(dim)]
        va, vb = basis_at(a, x), basis_at(b, x)
        ea, eb = econn[a].tolist(), econn[b].tolist()
        for dof in sorted(set(ea) | set(eb)):
            ctx.eq(sum(va[k] for k in range(len(ea)) if ea[k] == dof),
                   sum(vb[k] for k in range(len(eb)) if eb[k] == dof),
                   'trace of a basis function')
        n_pair += 1
    ctx.true(n_pair > 0 or problem == 'fast', 'interfaces found')
    # partition of unity, restored DOFs
    vec = ctx.real('u', n_nod, -1, 1)
    x = [t[j] for j in range(dim)]
    if subs is not None:
        vr = field.restore_substituted(vec)
    else:
        vr = vec
    for c in range(len(conn)):
        pt = [lo[c][j] + (hi[c][j] - lo[c][j]) * t[j] for j in range(dim)]
        v, v0 = basis_at(c, pt), basis_at(c, pt, False)
        ctx.eq(sum(v), 1.0, 'partition of unity')
        if c < len(conn0) or c % 3 == 0:
            ctx.eq(sum(v[k] * vec[econn[c][k]] for k in range(len(v))),
                   sum(v0[k] * vr[econn0[c][k]] for k in range(len(v))),
                   'function with restored DOFs')
    # linear functions are in the space: values in the nodes of used DOFs
    Xn = np.asarray(field.get_coor(), dtype=float)
    if basis == 'lagrange':
        for c in range(len(conn)):
            pt = [lo[c][j] + (hi[c][j] - lo[c][j]) * t[j]
                  for j in range(dim)]
            v = basis_at(c, pt)
            for j in range(dim):
                ctx.eq(sum(v[k] * Xn[econn[c][k], j] for k in range(len(v))),
                       pt[j], 'linear function')
    # store and restore
    field.restore_dofs(store=True)
    ctx.true(np.array_equal(np.asarray(field.econn), econn0)
             and field.basis_transform is None and field.unused_dofs is None,
             'original connectivity')
    field.substitute_dofs(None, restore=True)
    ctx.true(np.array_equal(np.asarray(field.econn), econn),
             'substituted connectivity')
    var = FieldVariable('u', 'unknown', field)
    Variables([var]).equation_mapping(None, None, None, None)
    eq = np.asarray(var.eq_map.eq)
    ctx.same(sorted(np.where(eq < 0)[0].tolist()), sorted(un),
             'unused DOFs are not solved for')
    ctx.same(sorted(eq[eq >= 0].tolist()), list(range(n_nod - len(un))),
             'numbers of equations')


def cases(tier):
    from symx.runner import Case
    th = tier == 'thorough'
    out = []
    for gd in ('1_2', '2_3', '2_4', '3_4', '3_8'):
        nr = 1 if gd == '1_2' else len(rotations(gd))
        for rot in range(nr):
            for vp in ((0,) if gd == '1_2' else (0, -1, 1)):
                if gd == '3_8' and not th and (rot + vp) % 3:
                    continue
                out.append(Case('%s %d %d' % (gd, rot, vp), 'h_uniform',
                                dict(gd=gd, rot=rot, vperm=vp)))
    for cp in itertools.permutations(range(3)):
        out.append(Case('1_2 %s' % (cp,), 'h_uniform',
                        dict(gd='1_2', cperm=cp)))

    def add(name, thorough=False, **kw):
        out.append(Case(name, 'h_hanging', kw, thorough_only=thorough))
    for n in range(1, 4):
        for fl in itertools.combinations(range(4), n):
            for order in (1, 2, 3):
                if order == 3 and n == 2:
                    continue
                rots = range(4) if n == 1 else (len(fl) + fl[0],)
                for r in rots:
                    if order > 1 and n == 1 and r != fl[0]:
                        continue
                    add('hanging 2D %s %d %d' % (fl, r, order), shape=(2, 2),
                        refine=fl, cell=(fl[-1] + r) % 4, rot=r % 4,
                        order=order)
    for r in range(4):
        for order in (2, 3, 4):
            add('hanging 2D two cells %d %d' % (r, order), shape=(2, 1),
                refine=(0,), cell=1, rot=r, order=order)
            add('hanging 2D two cells fine %d %d' % (r, order), shape=(2, 1),
                refine=(0,), cell=0, rot=r, order=order)
    add('hanging 2D levels', shape=(4, 1), refine=(0,), second=(3,), order=2)
    add('hanging 2D levels 2', shape=(4, 2), refine=(0, 1), second=(7,),
        order=1)
    add('hanging 2D levels nested', shape=(3, 1), refine=(0, 1),
        second=(0,), order=2)
    for basis in ('sem', 'serendipity'):
        for order in (2, 3, 4, 5):
            if order > (3 if basis == 'serendipity' else 4):
                continue
            add('hanging 2D %s %d' % (basis, order), shape=(2, 1),
                refine=(0,), cell=1, rot=1, order=order, basis=basis)
    for r in range(24):
        for order in (1, 2, 3):
            add('hanging 3D two cells %d %d' % (r, order), shape=(2, 1, 1),
                refine=(0,), cell=1, rot=r, order=order,
                thorough=order > 1 and r % 3 != 0)
            add('hanging 3D two cells fine %d %d' % (r, order),
                shape=(2, 1, 1), refine=(1,), cell=1, rot=r, order=order,
                thorough=order > 1 and r % 3 != 1)
    for r in range(24):
        add('hanging 3D common edge %d' % r, shape=(2, 2, 1), keep=(0, 3),
            refine=(r % 2,), cell=1, rot=r, order=1 + r // 2 % 3)
    add('hanging 3D levels', shape=(4, 1, 1), refine=(0,), second=(3,),
        order=2)
    add('hanging 3D levels edge', shape=(4, 2, 1), keep=(0, 2, 4, 7),
        refine=(0,), second=(3,), order=2)
    add('hanging 3D levels edges', shape=(4, 2, 1), keep=(0, 3, 4, 7),
        refine=(0,), second=(3,), order=2)
    add('hanging 3D levels edge first', shape=(4, 2, 1), keep=(0, 3, 4, 6),
        refine=(0,), second=(3,), order=2)
    for fl in ((0,), (0, 1), (0, 3), (0, 1, 2)):
        for order in (1, 2):
            add('hanging 3D edges %s %d' % (fl, order), shape=(2, 2, 1),
                refine=fl, cell=3, rot=5, order=order, problem='fast',
                thorough=order == 2)
    for k, fl in enumerate(((4,), (0, 8), (0, 1, 2), (1, 4, 7), (2, 4, 6),
                            (0, 1, 3, 4), (0, 2, 4, 6, 8))):
        for r in range(4):
            for order in (1, 2, 3, 4):
                add('hanging 2D 3x3 %s %d %d' % (fl, r, order), shape=(3, 3),
                    refine=fl, cell=(k + 2 * r) % 9, rot=r, order=order,
                    thorough=(order + r + k) % 4 > 0 or order > 2)
    for k, fl in enumerate(((0,), (0, 7), (0, 3), (0, 3, 5, 6), (1, 2),
                            (0, 1, 2, 3), (0, 1, 2, 3, 4, 5, 6))):
        for r in range(0, 24):
            for order in (1, 2, 3):
                if order > 1 and r % 6 != k % 6 or order > 2 and len(fl) > 4:
                    continue
                add('hanging 3D 2x2x2 %s %d %d' % (fl, r, order),
                    shape=(2, 2, 2), refine=fl, cell=(k + r) % 8, rot=r,
                    order=order, problem='fast',
                    thorough=order > 1 or len(fl) > 2 or r % 6 != k % 6)
    return out


def warm():
    from symx import driver
    h_uniform(driver.Ctx('conc'), '2_3')
    h_hanging(driver.Ctx('conc'), (2, 1), (0,))
