"""Geometric and array utilities."""
import itertools
import numpy as np
import fe
from c_mech import det, arr

PROPERTY = 'C23'
BOUNDS = ('1-3 items of dimension 1-3 with coordinates in [-1, 1] (simplices '
          'around reference ones); polygons with up to 6 vertices and any '
          'point; sparse matrices of up to 3x3 blocks of size 3 with any '
          'values')
OUTSIDE = 'eigenvalue and profiling utilities, text output'

TRI = [[0.0, 0.0], [1.0, 0.125], [0.25, 1.0]]
TRI3 = [[0.0, 0.0, 0.25], [1.0, 0.125, -0.25], [0.25, 1.0, 0.5]]
TET = [[0.0, 0.0, 0.0], [1.0, 0.125, 0.0], [0.25, 1.0, 0.0],
       [0.125, 0.25, 1.0]]


def perturbed(ctx, X, which, size=0.25):
    X = np.array(X, dtype=object if ctx.sym else float)
    for k, (i, j) in enumerate(which):
        X[i, j] = X[i, j] + ctx.real('p%d' % k, lo=-size, hi=size)
    return X


def dist2(a, b):
    return sum((x - y)**2 for x, y in zip(a, b))


def h_circum(ctx, X, which, eps=None):
    from sfepy.linalg import geometry as ge
    P = perturbed(ctx, X, which)
    n = len(P)
    c = ge.get_simplex_circumcentres(arr(ctx, [P, X]), force_inside_eps=eps)
    ctx.true(np.shape(c) == (2, len(X[0])), 'shape')
    if n == 2:
        for j in range(len(X[0])):
            ctx.eq(c[0, j] * 2, P[0][j] + P[1][j], 'midpoint')
        return
    if eps is None:
        d0 = dist2(c[0], P[0])
        for k in range(1, n):
            ctx.eq(dist2(c[0], P[k]), d0, 'equidistant')
        return
    # inside: barycentric coordinates by areas
    if len(X[0]) == n - 1:
        V = vol(P)
        full = ge.get_simplex_circumcentres(arr(ctx, [P]))
        bs, b0 = [], []
        for k in range(n):
            for out, x in ((bs, c[0]), (b0, full[0])):
                Q = [list(p) for p in P]
                Q[k] = list(x)
                out.append(vol(Q) / V)
        for b in bs:
            ctx.le(eps - 1e-9, b, 'inside of the simplex')
        if bool(min3(ctx, b0) >= eps):
            for j in range(n - 1):
                ctx.eq(c[0, j], full[0, j], 'circumcentre kept')


def min3(ctx, v):
    m = v[0]
    for x in v[1:]:
        m = ctx.ite(x < m, x, m)
    return m


def vol(P):
    n = len(P) - 1
    return det([[P[k + 1][j] - P[0][j] for j in range(n)]
                for k in range(n)])


def h_volumes(ctx, X, which):
    from sfepy.linalg import geometry as ge
    P = perturbed(ctx, X, which)
    n = len(P)
    coors = arr(ctx, list(P) + [[2.0] * (n - 1)])
    cells = np.array([list(range(n)), list(range(n - 1)) + [n]])
    v = ge.get_simplex_volumes(cells, coors)
    f = {2: 1, 3: 2, 4: 6}[n]
    ctx.eq(v[0] * f, vol(P), 'volume')
    ctx.eq(v[1] * f, vol(list(P[:-1]) + [[2.0] * (n - 1)]), 'volume')


def h_bary(ctx, X, which):
    from sfepy.linalg import geometry as ge
    P = perturbed(ctx, X, which)
    n = len(P)
    dim = n - 1
    x = ctx.real('x', (2, dim), lo=-1, hi=1)
    bc = ge.barycentric_coors(x, arr(ctx, P))
    ctx.true(np.shape(bc) == (n, 2), 'shape')
    for k in range(2):
        ctx.eq(sum(bc[i, k] for i in range(n)), 1, 'partition of unity')
        for j in range(dim):
            ctx.eq(sum(bc[i, k] * P[i][j] for i in range(n)), x[k, j],
                   'coordinates')
    if not which:
        B = arr(ctx, [[bc[i, k] for i in range(n)] for k in range(2)])
        y = ge.transform_bar_to_space_coors(B, arr(ctx, [P, P]))
        ctx.eq(y, x, 'to space and back')
        ref = np.eye(n)[:, 1:]
        xi = ge.inverse_element_mapping(x, arr(ctx, P), None, ref)
        for k in range(2):
            for j in range(dim):
                ctx.eq(sum(xi[k, m] * (P[m + 1][j] - P[0][j])
                           for m in range(dim)) + P[0][j], x[k, j],
                       'inverse mapping')


def h_in_simplex(ctx, X):
    from sfepy.linalg import geometry as ge
    n = len(X)
    dim = n - 1
    x = ctx.real('x', (1, dim), lo=-0.5, hi=1.5)
    P = np.array(X)
    fl = ge.points_in_simplex(x, P)
    V = vol(X)
    b = []
    for k in range(n):
        Q = [list(p) for p in X]
        Q[k] = list(x[0])
        b.append(vol(Q) / V)
    if bool(fl[0]):
        for v in b:
            ctx.true(v >= -1.0001e-8, 'flagged point is inside')
    else:
        ctx.true(ctx.Or(*[v <= -0.3e-8 for v in b]),
                 'other point is outside')


POLYS = {
    'triangle': ([[0, 0], [2, 0.5], [0.5, 2]], [(0, 1, 2)]),
    'square': ([[0, 0], [0, 1], [1, 1], [1, 0]], [(0, 2, 1), (0, 3, 2)]),
    'arrow': ([[0, 0], [2, 0], [1, 0.5], [2, 2]], [(0, 1, 2), (0, 2, 3)]),
    'L': ([[0, 0], [2, 0], [2, 1], [1, 1], [1, 2], [0, 2]],
          [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5)]),
}


def h_polygon(ctx, name, shift, rev):
    from sfepy.linalg import geometry as ge
    V, tris = POLYS[name]
    n = len(V)
    order = [(k + shift) % n for k in range(n)]
    if rev:
        order = order[::-1]
    P = np.array([V[k] for k in order], dtype=float)
    x = ctx.real('x', (1, 2), lo=-0.5, hi=2.5)
    fl = ge.flag_points_in_polygon2d(P, x)

    def area(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    p = [x[0, 0], x[0, 1]]
    cin, cout = [], []
    for t in tris:
        a, b, c = [V[k] for k in t]
        s = area(a, b, c)
        w = [area(a, b, p) / s, area(b, c, p) / s, area(c, a, p) / s]
        cin.append(ctx.And(*[v > 1e-9 for v in w]))
        cout.append(ctx.Or(*[v < -1e-9 for v in w]))
    if bool(fl[0]):
        ctx.true(ctx.Not(ctx.And(*cout)), 'flagged point is not outside')
    else:
        ctx.true(ctx.Not(ctx.Or(*cin)), 'other point is not inside')


def h_inverse(ctx, dim):
    """Inverse of an affine map of a tensor product cell."""
    from sfepy.linalg import geometry as ge
    from sfepy.discrete.fem.geometry_element import GeometryElement
    from sfepy.discrete.fem.poly_spaces import PolySpace
    with ctx.concrete():
        gel = GeometryElement({2: '2_4', 3: '3_8'}[dim])
        ref = np.asarray(gel.coors, dtype=float)
    A = np.array([[1.0, 0.25, -0.125], [0.125, 0.75, 0.25],
                  [-0.25, 0.125, 1.25]])[:dim, :dim]
    o = np.array([0.25, -0.5, 0.125])[:dim]
    ps = PolySpace.any_from_args('ps', gel, 1)
    xi = ctx.real('x', dim, lo=0, hi=1)
    X = arr(ctx, [sum(A[i, j] * xi[j] for j in range(dim)) + o[i]
                  for i in range(dim)])
    out = ge.inverse_element_mapping(X, ref @ A.T + o, ps.eval_basis, ref,
                                     suppress_errors=True)
    for i in range(dim):
        d = out[i] - xi[i]
        ctx.true(ctx.And(d <= 1e-7, d >= -1e-7), 'reference coordinates')


def h_perp(ctx, dim):
    from sfepy.linalg import geometry as ge
    v = ctx.real('v', dim, lo=-1, hi=1)
    if dim == 3:
        if ctx.choice('c', 2):
            v[0], v[1] = v[0] / 16, v[1] / 16
            ctx.assume(v[2] >= 0.25)
        else:
            v[0] = v[0] / 2 + 1
    else:
        ctx.assume(v[0] * v[0] + v[1] * v[1] >= 0.01)
    w = arr(ctx, list(v))
    out = ge.get_perpendiculars(w)
    for j in range(dim):
        ctx.eq(w[j], v[j], 'the argument is kept')
    if dim == 2:
        ctx.eq(out[0] * v[0] + out[1] * v[1], 0, 'perpendicular')
        ctx.eq(out[0]**2 + out[1]**2, 1, 'unit')
        return
    a, b = out
    for u in (a, b):
        ctx.eq(sum(u[j] * v[j] for j in range(3)), 0, 'perpendicular')
    ctx.eq(sum(a[j] * b[j] for j in range(3)), 0, 'mutually perpendicular')
    ctx.eq(sum(a[j] * a[j] for j in range(3)), 1, 'unit')


def h_face_areas(ctx, X, which, quad=False):
    from sfepy.linalg import geometry as ge
    P = perturbed(ctx, X, which)
    dim = len(X[0])
    if not quad:
        a = ge.get_face_areas([[0, 1, 2], [2, 1, 0]], arr(ctx, P))
        u = [P[1][j] - P[0][j] for j in range(dim)] + [0] * (3 - dim)
        v = [P[2][j] - P[0][j] for j in range(dim)] + [0] * (3 - dim)
        uu, vv = dist2(u, [0] * 3), dist2(v, [0] * 3)
        uv = sum(x * y for x, y in zip(u, v))
        for k in range(2):
            ctx.eq(4 * a[k] * a[k], uu * vv - uv * uv, 'area')
            ctx.le(0, a[k], 'sign')
    else:
        # a plane quadrilateral
        al = ctx.real('al', lo=0.5, hi=0.75)
        be = ctx.real('be', lo=0.625, hi=1)
        D = [P[0][j] + al * (P[1][j] - P[0][j]) + be * (P[2][j] - P[0][j])
             for j in range(dim)]
        Q = arr(ctx, [list(P[0]), list(P[1]), D, list(P[2])])
        a = ge.get_face_areas([[0, 1, 2, 3]], Q)
        t = ge.get_face_areas([[0, 1, 3]], Q)
        ctx.eq(a[0], t[0] * (al + be), 'area of a quadrilateral')


def h_rotation(ctx):
    from sfepy.linalg import geometry as ge
    a = ctx.real('a', lo=-3, hi=3)
    d = ctx.real('d', 3, lo=0.25, hi=1)
    M = ge.make_axis_rotation_matrix(d, a)
    n2 = dist2(d, [0, 0, 0])
    # the axis is kept
    for i in range(3):
        ctx.eq(sum(M[i, j] * d[j] for j in range(3)), d[i], 'axis')
    s, c = np.sin(a), np.cos(a)
    e = ge.make_axis_rotation_matrix([0.0, 0.0, 2.0], a)
    want = [[c, s, 0], [-s, c, 0], [0, 0, 1]]
    for i in range(3):
        for j in range(3):
            ctx.eq(e[i, j], want[i][j], 'rotation around z')
    # v -> c v + s v x n + (1 - c) n (n . v)
    v = ctx.real('v', 3, lo=-1, hi=1)
    m = sum(d[j] * v[j] for j in range(3))
    x = [v[1] * d[2] - v[2] * d[1], v[2] * d[0] - v[0] * d[2],
         v[0] * d[1] - v[1] * d[0]]
    r = n2 ** 0.5
    for i in range(3):
        ctx.eq(sum(M[i, j] * v[j] for j in range(3)),
               c * v[i] + s * x[i] / r + (1 - c) * d[i] * m / n2,
               'rotated vector')
    t = ctx.real('t', lo=-90, hi=90)
    R = ge.rotation_matrix2d(t)
    q = t * (np.pi / 180.0)
    ctx.eq(R[0, 0], np.cos(q), 'plane rotation')
    ctx.eq(R[1, 0], np.sin(q), 'plane rotation')
    ctx.eq(R[0, 1], -np.sin(q), 'plane rotation')
    ctx.eq(R[1, 1], np.cos(q), 'plane rotation')


def h_tube(ctx, inside):
    from sfepy.linalg import geometry as ge
    axis = np.array([2 / 3, -1 / 3, 2 / 3])
    centre = [0.5, 0.0, -0.25]
    x = ctx.real('x', (2, 3), lo=-2, hi=2)
    r1, r2, ln = 0.5, 1.25, 1.5
    got = [int(k) for k in ge.get_coors_in_tube(
        x, centre, axis, r1, r2, ln, inside_radii=inside)]
    ctx.true(sorted(set(got)) == got, 'sorted indices')
    for k in range(2):
        v = [x[k, j] - centre[j] for j in range(3)]
        dl = sum(v[j] * axis[j] for j in range(3))
        c = [axis[1] * v[2] - axis[2] * v[1], axis[2] * v[0] - axis[0] * v[2],
             axis[0] * v[1] - axis[1] * v[0]]
        d2 = dist2(c, [0] * 3)
        t = 1e-9
        if inside:
            yes = ctx.And(dl > -ln / 2 + t, dl < ln / 2 - t,
                          d2 > r1 * r1 + t, d2 < r2 * r2 - t)
            no = ctx.Or(dl < -ln / 2 - t, dl > ln / 2 + t,
                        d2 < r1 * r1 - t, d2 > r2 * r2 + t)
        else:
            yes = ctx.And(dl > -ln / 2 + t, dl < ln / 2 - t,
                          ctx.Or(d2 < r1 * r1 - t, d2 > r2 * r2 + t))
            no = ctx.Or(dl < -ln / 2 - t, dl > ln / 2 + t,
                        ctx.And(d2 > r1 * r1 + t, d2 < r2 * r2 - t))
        if k in got:
            ctx.true(ctx.Not(no), 'selected point is in the tube')
        else:
            ctx.true(ctx.Not(yes), 'other point is not in the tube')


def h_ball(ctx, inside, two, dim=3):
    from sfepy.linalg import geometry as ge
    centre = np.array([0.5, 0.0, -0.25])[:dim]
    x = ctx.real('x', (2, dim), lo=-2, hi=2)
    r = ctx.real('r', lo=0.5, hi=2)
    r2 = ctx.real('r2', lo=0, hi=1) * r if two else None
    got = [int(k) for k in ge.get_coors_in_ball(
        x, centre, r, radius2=r2, inside=inside)]
    t = 1e-9
    for k in range(2):
        d2 = dist2(x[k], centre)
        if inside:
            yes = [d2 < r * r - t] + ([d2 > r2 * r2 + t] if two else [])
            no = [d2 > r * r + t] + ([d2 < r2 * r2 - t] if two else [])
            yes, no = ctx.And(*yes), ctx.Or(*no)
        else:
            yes = [d2 > r * r + t] + ([d2 < r2 * r2 - t] if two else [])
            no = [d2 < r * r - t] + ([d2 > r2 * r2 + t] if two else [])
            yes, no = ctx.Or(*yes), ctx.And(*no)
        if k in got:
            ctx.true(ctx.Not(no), 'selected point belongs to the set')
        else:
            ctx.true(ctx.Not(yes), 'other point is not in the set')


# -- arrays ----------------------------------------------------------------

def h_norms(ctx):
    from sfepy.linalg import utils as ut
    a = ctx.real('a', (2, 3), lo=-1, hi=1)
    for axis in (0, 1):
        for n in (None, 1, 2, 5):
            for sq in (False, True):
                v = ut.norm_l2_along_axis(a, axis=axis, n_item=n, squared=sq)
                m = a.shape[axis] if n is None else min(n, a.shape[axis])
                ctx.true(len(v) == a.shape[1 - axis], 'length')
                for k in range(len(v)):
                    w = a[k, :m] if axis else a[:m, k]
                    s = sum(x * x for x in w)
                    ctx.eq(v[k] if sq else v[k] * v[k], s, 'norm')
                    ctx.le(0, v[k], 'sign')
    b = arr(ctx, a.copy())
    ut.normalize_vectors(b)
    for k in range(2):
        s = sum(x * x for x in a[k])
        if bool(s > 1.0001e-16):
            ctx.eq(sum(x * x for x in b[k]), 1, 'unit vector')
            for j in range(3):
                ctx.eq(b[k, j] * b[k, j] * s, a[k, j] * a[k, j], 'scaling')
                ctx.true(b[k, j] * a[k, j] >= 0, 'direction')
        elif bool(s < 0.9999e-16):
            ctx.eq(b[k], a[k], 'zero vectors are kept')


def h_inverse_mtx(ctx, dim, given):
    from sfepy.linalg import utils as ut
    a = ctx.real('a', (2, 1, dim, dim), lo=-0.25, hi=0.25)
    a = a + np.eye(dim) + 0.125 * (np.arange(dim)[:, None]
                                   - np.arange(dim) > 0)
    d = [det([[a[k, 0, i, j] for j in range(dim)] for i in range(dim)])
         for k in range(2)]
    D = ut.dets_fast(a.reshape((2, dim, dim)))
    ctx.eq(D, np.array(d), 'determinants')
    kw = {}
    if given:
        kw = dict(det=arr(ctx, d).reshape((2, 1)))
    b = ut.invs_fast(a, **kw)
    ctx.true(np.shape(b) == np.shape(a), 'shape')
    for k in range(2):
        for i in range(dim):
            for j in range(dim):
                ctx.eq(sum(a[k, 0, i, m] * b[k, 0, m, j]
                           for m in range(dim)), float(i == j), 'inverse')


def h_dots(ctx):
    from sfepy.linalg import utils as ut
    A = ctx.real('A', (2, 2, 3), lo=-1, hi=1)
    B = ctx.real('B', (2, 3, 2), lo=-1, hi=1)
    v3 = ctx.real('v', (2, 3), lo=-1, hi=1)
    v2 = ctx.real('w', (2, 2), lo=-1, hi=1)
    t = (0, 2, 1)
    for mode, X, Y in (('AB', A, B), ('ATB', A.transpose(t), B),
                       ('ABT', A, B.transpose(t)),
                       ('ATBT', A.transpose(t), B.transpose(t))):
        out = ut.dot_sequences(X, Y, mode)
        ctx.true(np.shape(out) == (2, 2, 2), 'shape')
        for k in range(2):
            for i in range(2):
                for j in range(2):
                    ctx.eq(out[k, i, j], sum(A[k, i, m] * B[k, m, j]
                                             for m in range(3)), mode)
        out = ut.dot_sequences(X, v3, mode)
        ctx.true(np.shape(out) == (2, 2), 'shape')
        for k in range(2):
            for i in range(2):
                ctx.eq(out[k, i], sum(A[k, i, m] * v3[k, m]
                                      for m in range(3)), mode + ' vectors')
    s = ut.insert_strided_axis(v2, 1, 3)
    ctx.true(np.shape(s) == (2, 3, 2), 'shape')
    for k in range(3):
        ctx.eq(s[:, k], v2, 'strided axis')
    s = ut.insert_strided_axis(A, 0, 2)
    for k in range(2):
        ctx.eq(s[k], A, 'strided axis')
    n = ut.apply_to_sequence(A, lambda x: 2 * x[0], 2, (3,))
    ctx.eq(n, 2 * A[:, 0], 'applied function')
    out = []
    for x, y in ut.chunk_arrays([v2, v3], 1):
        out.append((len(x), len(y)))
    ctx.true(out == [(1, 1), (1, 1)], 'chunks')
    got = [x[0] for x in ut.chunk_arrays([np.arange(7)], 3)]
    ctx.same(np.concatenate(got), np.arange(7), 'all chunks')


def h_assemble1d(ctx):
    from sfepy.linalg import utils as ut
    a = ctx.real('a', 4, lo=-1, hi=1)
    b = ctx.real('b', 5, lo=-1, hi=1)
    ind = np.array([ctx.choice('i0', 4), 2, ctx.choice('i1', 4), 0,
                    ctx.choice('i2', 4)])
    out = arr(ctx, a.copy())
    ut.assemble1d(out, ind, b)
    for k in range(4):
        ctx.eq(out[k], a[k] + sum(b[m] for m in range(5) if ind[m] == k),
               'sum')


def h_rows(ctx):
    """Sorting and permutations of integer rows."""
    from sfepy.linalg import utils as ut
    A = np.array([[ctx.choice('a%d%d' % (i, j), 2) for j in range(2)]
                  for i in range(3)], dtype=np.int32)
    u, i1, i2 = ut.unique_rows(A, return_index=True, return_inverse=True)
    rows = [tuple(r) for r in A.tolist()]
    ctx.true(sorted(set(rows)) == sorted(tuple(r) for r in u.tolist()),
             'unique rows')
    ctx.same(A[i1], u, 'indices')
    ctx.same(u[np.ravel(i2)], A, 'inverse')
    ii = ut.argsort_rows(A)
    ctx.true([rows[k] for k in ii] == sorted(rows), 'order')
    perm = list(itertools.permutations(range(3)))[ctx.choice('p', 6)]
    B = A[list(perm)]
    im = ut.map_permutations(A, B, check_same_items=True)
    ctx.same(A[im], B, 'map of permutations')
    ctx.same(A[:, 0][ut.map_permutations(A[:, 0], B[:, 0])], B[:, 0],
             'map of items')


def h_compose(ctx, mode):
    import scipy.sparse as sp
    from sfepy.linalg import sparse as lsp
    from c_newton import sparse
    A = ctx.real('A', (2, 2), lo=-1, hi=1)
    B = ctx.real('B', (1, 2), lo=-1, hi=1)
    a, b = sparse(ctx, A), sparse(ctx, B)
    kw = {}
    ro, co = [0, 2], [0, 2]
    nr = nc = 3
    if mode == 'sizes':
        kw = dict(row_sizes=[2, 1], col_sizes=[2, 2])
        nc = 4
    elif mode == 'slices':
        kw = dict(row_sizes=[slice(1, 3), slice(4, 5)],
                  col_sizes=[slice(0, 2), slice(3, 4)])
        ro, co, nr, nc = [1, 4], [0, 3], 5, 4
    bt = b.T.tocsr() if mode != 'sizes' else 0
    M = lsp.compose_sparse([[a, bt], [b, 0]], **kw)
    ctx.same(M.shape, (nr, nc), 'shape')
    D = M.toarray()
    W = np.zeros((nr, nc), dtype=object if ctx.sym else float)
    for i in range(2):
        for j in range(2):
            W[ro[0] + i, co[0] + j] = A[i, j]
        W[ro[1], co[0] + i] = B[0, i]
        if mode != 'sizes':
            W[ro[0] + i, co[1]] = B[0, i]
    for i in range(nr):
        for j in range(nc):
            ctx.eq(D[i, j], W[i, j], 'entry')
    ctx.raises(ValueError, lambda: lsp.compose_sparse([[b, a]]), 'sizes')
    ctx.raises(ValueError, lambda: lsp.compose_sparse([]), 'no blocks')
    ctx.raises(ValueError, lambda: lsp.compose_sparse([[a, 0], [0, 0]]),
               'incomplete sizes')


def h_insert(ctx, sl):
    from sfepy.linalg import sparse as lsp
    from c_newton import sparse
    A = ctx.real('A', (4, 4), lo=-1, hi=1)
    B = ctx.real('B', (2, 2), lo=-1, hi=1)
    a, b = sparse(ctx, A), sparse(ctx, B)
    if sl:
        ir, ic = [1, 3], [0, 1]
        rr, cc = slice(1, 4, 2), slice(0, 2, 1)
    else:
        ir, ic = [2, 0], [3, 1]
        rr = np.array(ir, dtype=np.int32)
        cc = np.array(ic, dtype=np.int32)
    lsp.insert_sparse_to_csr(a, b, rr, cc)
    D = a.toarray()
    for i in range(4):
        for j in range(4):
            w = A[i, j]
            if i in ir and j in ic:
                w = w + B[ir.index(i), ic.index(j)]
            ctx.eq(D[i, j], w, 'entry')


def h_norm(ctx, fmt):
    from sfepy.linalg import sparse as lsp
    from c_newton import sparse
    A = ctx.real('A', (2, 3), lo=-1, hi=1)
    m = sparse(ctx, A) if fmt != 'dense' else A
    if fmt not in ('csr', 'dense'):
        m = getattr(m, 'to' + fmt)()
    n = lsp.infinity_norm(m)
    rows = []
    for i in range(2):
        s = 0
        for j in range(3):
            s = s + ctx.ite(A[i, j] < 0, -A[i, j], A[i, j])
        rows.append(s)
    ctx.eq(n, ctx.ite(rows[0] < rows[1], rows[1], rows[0]), 'norm')


def cases(tier):
    from symx.runner import Case
    out = []

    def add(name, h, p={}, **kw):
        out.append(Case(name, h, dict(p), **kw))
    for nm, X, ws in (('edge', TRI3[:2], [[(0, 0), (1, 2)]]),
                      ('edge2', TRI[:2], [[(0, 0), (1, 1)]]),
                      ('triangle', TRI, [[(0, 0), (1, 1), (2, 0)]]),
                      ('triangle3', TRI3, [[(0, 0), (1, 2)],
                                           [(2, 0), (0, 2)]]),
                      ('tetra', TET, [[(0, 0), (3, 2)], [(1, 1), (2, 2)]])):
        for k, w in enumerate(ws):
            add('circumcentre %s %d' % (nm, k), 'h_circum',
                dict(X=X, which=w))
    add('circumcentre inside', 'h_circum',
        dict(X=TRI, which=[(0, 0)], eps=0.125))
    add('circumcentre inside 2', 'h_circum',
        dict(X=[[0.0, 0], [1, 0], [0.25, 0.375]], which=[(2, 1)], eps=0.0625))
    for nm, X in (('line', [[0.0], [1.0]]), ('triangle', TRI),
                  ('tetra', TET)):
        n = len(X)
        allp = [(i, j) for i in range(n) for j in range(n - 1)]
        add('volume ' + nm, 'h_volumes', dict(X=X, which=allp))
        add('barycentric %s' % nm, 'h_bary', dict(X=X, which=[]))
        add('barycentric %s moved' % nm, 'h_bary',
            dict(X=X, which=allp[:4]))
        add('in ' + nm, 'h_in_simplex', dict(X=X))
    for name in POLYS:
        for shift in range(len(POLYS[name][0])):
            add('polygon %s %d' % (name, shift), 'h_polygon',
                dict(name=name, shift=shift, rev=bool(shift % 2)))
    for dim in (2, 3):
        add('inverse mapping %d' % dim, 'h_inverse', dict(dim=dim))
        add('perpendicular %d' % dim, 'h_perp', dict(dim=dim))
    for nm, X, w in (('2D', TRI, [(0, 0), (1, 1), (2, 0), (2, 1)]),
                     ('3D', TRI3, [(0, 0), (1, 2), (2, 1)])):
        add('areas ' + nm, 'h_face_areas', dict(X=X, which=w))
    add('areas of quadrilaterals 2D', 'h_face_areas',
        dict(X=TRI, which=[(0, 0)], quad=True))
    add('areas of quadrilaterals 3D', 'h_face_areas',
        dict(X=TRI3, which=[], quad=True))
    add('rotation', 'h_rotation')
    for ins in (True, False):
        add('tube %d' % ins, 'h_tube', dict(inside=ins))
        for two in (False, True):
            add('ball %d %d' % (ins, two), 'h_ball',
                dict(inside=ins, two=two))
    add('disk', 'h_ball', dict(inside=True, two=True, dim=2))
    add('norms', 'h_norms')
    for dim in (1, 2, 3):
        for g in (False, True):
            add('inverses %d %d' % (dim, g), 'h_inverse_mtx',
                dict(dim=dim, given=g))
    add('dot products', 'h_dots')
    add('assemble1d', 'h_assemble1d')
    add('rows', 'h_rows')
    for mode in ('plain', 'sizes', 'slices'):
        add('compose ' + mode, 'h_compose', dict(mode=mode))
    for sl in (False, True):
        add('insert %d' % sl, 'h_insert', dict(sl=sl))
    for fmt in ('csr', 'csc', 'dense'):
        add('norm ' + fmt, 'h_norm', dict(fmt=fmt))
    return out


def warm():
    from symx import driver
    import sfepy.linalg
    h_bary(driver.Ctx('conc'), TRI, [])
    h_inverse(driver.Ctx('conc'), 2)
    h_dots(driver.Ctx('conc'))
    h_insert(driver.Ctx('conc'), False)
