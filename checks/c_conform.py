"""Inter-element continuity: the traces of a finite element function from two
neighbouring cells coincide for any DOFs and any local numberings."""
import itertools
import numpy as np
import fe

PROPERTY = 'C10'
BOUNDS = ('pairs of cells sharing a facet: each facet of a cell in each '
          'rotation and with each relative order of global vertex numbers '
          'against one facet of a reference cell; points anywhere on the '
          'facet, any DOF values; orders up to 5 (2D), 4 (tetrahedra), 3 '
          '(hexahedra, quick: 2, some 3)')
OUTSIDE = ('wedges of order two and more, mixed meshes, DG fields (no '
           'continuity), refined meshes with hanging nodes (separate '
           'property), NURBS patches')
ASSUMPTIONS = ['each global vertex order is taken with both one lower and one '
               'higher position of the other vertices only']

GEO = {'2_3': [[0, 0], [1, 0], [0, 1]],
       '2_4': [[0, 0], [1, 0], [1, 1], [0, 1]],
       '3_4': [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]],
       '3_8': [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0],
               [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]}
# Vertices of the shared facet (x = 0) of the reference cell.
FACE = {'2_3': [0, 2], '2_4': [0, 3], '3_4': [0, 2, 3], '3_8': [0, 3, 7, 4]}


def det(m):
    return float(np.linalg.det(np.asarray(m, dtype=float)))


def rotations(gd):
    """Even renumberings of the local vertices."""
    C = np.array(GEO[gd], dtype=float)
    n = len(C)
    out = []
    if gd in ('2_3', '3_4'):
        for p in itertools.permutations(range(n)):
            J = [C[p[k]] - C[p[0]] for k in range(1, n)]
            if det(J) > 0:
                out.append(p)
        return out
    # symmetries of the cube
    dim = C.shape[1]
    for ax in itertools.permutations(range(dim)):
        for sg in itertools.product((1, -1), repeat=dim):
            R = np.zeros((dim, dim))
            for k in range(dim):
                R[k, ax[k]] = sg[k]
            if det(R) < 0:
                continue
            Y = (C - 0.5) @ R.T + 0.5
            out.append(tuple(int(np.abs(C - y).max(axis=1).argmin())
                             for y in Y))
    return out


def mesh(gd, rot, perms, low, extra=0):
    """Disjoint pairs of neighbouring cells, the second mirrored by the shared
    facet and numbered by the rotation."""
    from sfepy.discrete.fem import Mesh, FEDomain
    C = np.array(GEO[gd], dtype=float)
    f = FACE[gd]
    rest = [k for k in range(len(C)) if k not in f]
    coors, conn = [], []
    for ip, p in enumerate(perms):
        n0 = len(coors)
        D = C.copy()
        D[:, 0] = -D[:, 0]
        # mirrored local order of the second cell is fixed by its geometry
        ids_f = {}
        pos = []
        m = len(rest)
        ff = 2 * m if not low else 0
        fr = 0 if not low else len(f)
        table = [None] * (2 * m + len(f))
        for j, v in enumerate(f):
            ids_f[v] = ff + p[j]
            table[ff + p[j]] = C[v]
        ida, idb = dict(ids_f), dict(ids_f)
        for j, v in enumerate(rest):
            ida[v] = fr + j
            table[fr + j] = C[v]
            idb[v] = fr + m + j
            table[fr + m + j] = D[v]
        A = [n0 + ida[k] for k in range(len(C))]
        # the second cell in the reference local order
        if gd in ('2_3', '3_4'):
            # a mirrored simplex: exchange two vertices
            o = list(range(len(C)))
            o[0], o[-1] = o[-1], o[0]
            B = [n0 + idb[k] for k in o]
        else:
            # moved by -1 along x
            B = []
            for k in range(len(C)):
                y = C[k].copy()
                y[0] = 1 - y[0]
                B.append(n0 + idb[int(np.abs(C - y).max(axis=1).argmin())])
        B = [B[k] for k in rot]
        coors += [t + np.array([4.0 * ip] + [0.0] * (C.shape[1] - 1))
                  for t in table]
        conn += [A, B]
    me = Mesh.from_data('m', np.array(coors), None,
                        [np.array(conn, dtype=np.int32)],
                        [np.zeros(len(conn), dtype=np.int32)], [gd])
    d = FEDomain('d', me)
    d.create_region('Omega', 'all')
    return d, conn


def h(ctx, gd, basis, order, rot, low=False, part=False):
    from sfepy.discrete.fem import Field
    rots = rotations(gd)
    f = FACE[gd]
    perms = list(itertools.permutations(range(len(f))))
    if low and len(perms) > 6:
        perms = perms[::3]
    with ctx.concrete():
        d, conn = mesh(gd, rots[rot], perms, low)
        rn = 'Omega'
        if part:
            # cells of a sub-region with other numbers than in the mesh
            d.create_region('Part', 'cell ' + ', '.join(
                str(k) for k in range(2, len(conn))), 'cell')
            rn = 'Part'
            conn = conn[2:]
    got = d.cmesh.get_conn(d.shape.dim, 0).indices.reshape((-1, len(GEO[gd])))
    ctx.true(np.array_equal(np.asarray(got)[-len(conn):], np.array(conn)),
             'cells')
    field = Field.from_args('f', np.float64, 1, d.regions[rn],
                            approx_order=order, space='H1',
                            poly_space_basis=basis)
    ps = field.poly_space
    econn = np.asarray(field.econn)
    ctx.true(econn.shape == (len(conn), ps.n_nod), 'shape of connectivity')
    ctx.true(sorted(set(econn.ravel().tolist()))
             == list(range(field.n_nod)), 'numbering of DOFs')
    # a point of the shared facet: weights of its vertices
    dim = d.shape.dim
    t = ctx.real('t', dim - 1, lo=0, hi=1)
    if dim == 2:
        w = [1 - t[0], t[0]]
    elif len(f) == 3:
        ctx.assume(t[0] + t[1] <= 1)
        w = [1 - t[0] - t[1], t[0], t[1]]
    else:
        w = [(1 - t[0]) * (1 - t[1]), t[0] * (1 - t[1]), t[0] * t[1],
             (1 - t[0]) * t[1]]
    C = GEO[gd]
    ori = field.ori

    def basis_in(loc, iels):
        """Basis functions in the point given by local facet vertices."""
        x = [sum(w[j] * C[v][k] for j, v in enumerate(loc))
             for k in range(dim)]
        xx = fe.ctx_wrap(ctx, np.array([x], dtype=object if ctx.sym
                                       else float))
        o = None if ori is None else np.ascontiguousarray(ori[iels])
        b = np.asarray(ps.eval_basis(xx, ori=o, suppress_errors=True))
        if o is None:
            return [b[0, 0]] * len(iels)
        return [b[k, 0, 0] if b.ndim == 4 else b[0, 0]
                for k in range(len(iels))]
    ia = np.arange(0, len(conn), 2)
    ib = ia + 1
    # local facet vertices of the second cells
    locb = [conn[1].index(conn[0][v]) for v in f]
    for k in ia:
        assert locb == [conn[k + 1].index(conn[k][v]) for v in f]
    ba = basis_in(f, ia)
    bb = basis_in(locb, ib)
    nshared = {(2, 2): 1}.get((dim, 2))
    for k in range(len(ia)):
        ea, eb = list(econn[ia[k]]), list(econn[ib[k]])
        shared = set(ea) & set(eb)
        want = {2: order + 1, 3: (order + 1) * (order + 2) // 2,
                4: (order + 1)**2}[len(f)]
        if basis == 'serendipity':
            want = order + 1 if dim == 2 else {1: 4, 2: 8, 3: 12}[order]
        ctx.true(len(shared) == want, 'number of shared DOFs')
        for dof in sorted(set(ea) | set(eb)):
            va = ba[k][ea.index(dof)] if dof in ea else 0
            vb = bb[k][eb.index(dof)] if dof in eb else 0
            ctx.eq(va, vb, 'trace of a basis function')
        if basis in ('lagrange', 'sem', 'serendipity'):
            X = np.asarray(field.get_coor(), dtype=float)
            nc = np.asarray(ps.node_coors, dtype=float)
            for cell, e in ((conn[ia[k]], ea), (conn[ib[k]], eb)):
                V = np.asarray(d.mesh.coors)[cell]
                S = linear(gd, nc)
                ctx.eq(X[e], S @ V, 'coordinates of nodes')


def linear(gd, x):
    """Shape functions of the cell."""
    x = np.asarray(x, dtype=float)
    if gd in ('2_3', '3_4'):
        return np.c_[1 - x.sum(axis=1), x]
    C = np.array(GEO[gd], dtype=float)
    out = []
    for c in C:
        out.append(np.prod(np.where(c > 0.5, x, 1 - x), axis=1))
    return np.array(out).T


SETS = {'2_3': {'lagrange': (1, 2, 3, 4, 5), 'bernstein': (2, 3, 4)},
        '2_4': {'lagrange': (1, 2, 3, 4), 'bernstein': (2, 3),
                'sem': (2, 3, 4), 'serendipity': (1, 2, 3),
                'lobatto': (1, 2, 3, 4, 5)},
        '3_4': {'lagrange': (1, 2, 3, 4), 'bernstein': (2, 3)},
        '3_8': {'lagrange': (1, 2, 3), 'bernstein': (2,), 'sem': (2, 3),
                'serendipity': (2, 3), 'lobatto': (2, 3)}}
DEEP = {('3_8', 'lagrange'): (4,), ('3_8', 'lobatto'): (4, 5),
        ('3_8', 'bernstein'): (3,), ('3_4', 'lagrange'): (5,),
        ('2_4', 'lobatto'): (6,), ('2_3', 'lagrange'): (6,)}


def cases(tier):
    from symx.runner import Case
    out = []
    for gd, bs in SETS.items():
        n = len(rotations(gd))
        for basis, orders in bs.items():
            deep = DEEP.get((gd, basis), ())
            for order in orders + deep:
                for r in range(n):
                    out.append(Case('%s %s %d r%d' % (gd, basis, order, r),
                                    'h', dict(gd=gd, basis=basis, order=order,
                                              rot=r),
                                    thorough_only=order in deep
                                    or ((gd, basis, order)
                                        == ('3_8', 'sem', 3) and r % 4)))
                for r in range(0, n, 5):
                    out.append(Case('%s %s %d r%d low' % (
                        gd, basis, order, r), 'h', dict(
                            gd=gd, basis=basis, order=order, rot=r,
                            low=True), thorough_only=order in deep))
                out.append(Case('%s %s %d part' % (gd, basis, order), 'h',
                                dict(gd=gd, basis=basis, order=order,
                                     rot=n - 1, part=True),
                                thorough_only=order in deep))
    return out


def warm():
    from symx import driver
    for gd in GEO:
        for basis in SETS[gd]:
            h(driver.Ctx('conc'), gd, basis, 2, 0)
