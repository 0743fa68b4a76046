"""Constitutive relations, tensor utilities and shell geometry."""
import itertools
import numpy as np
import fe

PROPERTY = 'C19'
BOUNDS = ('Young moduli in [1/2, 2], Poisson ratios in [-9/10, 49/100] (as '
          'far as the relation is unique); tensor components in [-1, 1]; '
          'all rotations by the Cayley parametrisation with parameters in '
          '[-1, 1]; plane transformations: up to three coefficients around '
          'positive definite tensors')
OUTSIDE = ('physical units, the assembled shell element matrices, '
           'complex-valued coefficients')


def C(x):
    return np.asarray(x, dtype=float)


# -- isotropic materials ---------------------------------------------------

def youngpoisson(ctx, lo=-0.9, hi=0.49):
    E = ctx.real('E', lo=0.5, hi=2)
    nu = ctx.real('nu', lo=lo, hi=hi)
    return E, nu


def lame(E, nu):
    return E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))


def h_iso(ctx, dim, plane):
    from sfepy.mechanics import matcoefs as mc
    E, nu = youngpoisson(ctx)
    if plane == 'stress':
        ctx.assume(nu >= -0.875)
    la, mu = lame(E, nu)
    l1, m1 = mc.lame_from_youngpoisson(E, nu, plane=plane)
    ctx.eq(m1, mu, 'mu')
    lb = la
    if plane == 'stress':
        lb = E * nu / (1 - nu * nu)
    ctx.eq(l1, lb, 'lambda')
    D = mc.stiffness_from_youngpoisson(dim, E, nu, plane=plane)
    sym = dim * (dim + 1) // 2
    ctx.true(np.shape(D) == (sym, sym), 'shape')
    # response to strains
    e = ctx.real('e', sym, lo=-1, hi=1)
    s = [sum(D[i, j] * e[j] for j in range(sym)) for i in range(sym)]
    tr = sum(e[i] for i in range(dim))
    for i in range(sym):
        if i < dim:
            ctx.eq(s[i], lb * tr + 2 * mu * e[i], 'normal stress')
        else:
            ctx.eq(s[i], mu * e[i], 'shear stress')
    if plane == 'stress' and dim == 2:
        # uniaxial tension
        ctx.eq(D[0, 0] - nu * D[0, 1], E, 'uniaxial stress')
        ctx.eq(D[1, 0] - nu * D[1, 1], 0, 'no lateral stress')
    if plane == 'strain' and dim == 3:
        ctx.eq(D[0, 0] - nu * D[0, 1] - nu * D[0, 2], E, 'uniaxial stress')
        ctx.eq(D[1, 0] - nu * D[1, 1] - nu * D[1, 2], 0, 'no lateral stress')
    # and back
    l2, m2 = mc.lame_from_stiffness(D, plane=plane)
    ctx.eq(l2, la, 'lambda from stiffness')
    ctx.eq(m2, mu, 'mu from stiffness')
    E2, nu2 = mc.youngpoisson_from_stiffness(D, plane=plane)
    ctx.eq(E2, E, 'Young from stiffness')
    ctx.eq(nu2, nu, 'Poisson from stiffness')
    # mixed form
    if plane == 'strain':
        Dm = mc.stiffness_from_youngpoisson_mixed(dim, E, nu, plane=plane)
        K = mc.bulk_from_youngpoisson(E, nu, plane=plane)
        ctx.eq(K, E / (3 * (1 - 2 * nu)), 'bulk')
        for i in range(sym):
            for j in range(sym):
                ctx.eq(Dm[i, j] + (K if (i < dim and j < dim) else 0),
                       D[i, j], 'mixed form')
    lp, mp = mc.lame_from_youngpoisson(E, nu, plane=plane)
    ctx.eq(mc.bulk_from_youngpoisson(E, nu, plane=plane), lp + 2 * mp / 3,
           'bulk and Lame constants')
    ctx.eq(mc.bulk_from_lame(la, mu), E / (3 * (1 - 2 * nu)), 'bulk of Lame')


def h_iso_array(ctx):
    """Arrays of parameters give arrays of tensors."""
    from sfepy.mechanics import matcoefs as mc
    la = ctx.real('l', 3, lo=-1, hi=1)
    mu = ctx.real('m', 3, lo=0.5, hi=1)
    for dim in (1, 2, 3):
        D = mc.stiffness_from_lame(dim, la, mu)
        for k in range(3):
            ctx.eq(D[k], mc.stiffness_from_lame(dim, la[k], mu[k]), 'item')
    l2, m2 = mc.lame_from_stiffness(mc.stiffness_from_lame(3, la, mu))
    ctx.eq(l2, la, 'lambda')
    ctx.eq(m2, mu, 'mu')


def h_ortho(ctx, which):
    from sfepy.mechanics import matcoefs as mc
    E = [1.0, 1.5, 0.75]
    nu = [0.25, 0.125, 0.375]
    G = [0.5, 0.25, 0.75]
    for k, (l, n) in enumerate(which):
        v = {'E': E, 'nu': nu, 'G': G}[l]
        v[n] = ctx.real('p%d' % k, lo=v[n] * 0.75, hi=v[n] * 1.25)
    D = mc.stiffness_from_yps_ortho3(E, nu, G)
    # uniaxial and shear loads
    n21, n31, n32 = (nu[0] * E[1] / E[0], nu[1] * E[2] / E[0],
                     nu[2] * E[2] / E[1])
    loads = [[1 / E[0], -nu[0] / E[0], -nu[1] / E[0], 0, 0, 0],
             [-n21 / E[1], 1 / E[1], -nu[2] / E[1], 0, 0, 0],
             [-n31 / E[2], -n32 / E[2], 1 / E[2], 0, 0, 0],
             [0, 0, 0, 1 / G[0], 0, 0], [0, 0, 0, 0, 1 / G[1], 0],
             [0, 0, 0, 0, 0, 1 / G[2]]]
    for k, e in enumerate(loads):
        for i in range(6):
            ctx.eq(sum(D[i, j] * e[j] for j in range(6)), float(i == k),
                   'stress of load %d' % k)


class Rel(object):
    """A sympy relation evaluated exactly."""

    def __init__(self, expr, key):
        self.expr = expr
        self.key = key

    def n(self, *args, **kw):
        subs = kw['subs']
        import sympy as sm

        def ev(x):
            if x.is_Symbol:
                return subs[x]
            if x.is_Rational:
                return frac(x)
            if x.is_Float:
                return float(x)
            if x.is_Add:
                out = 0
                for a in x.args:
                    out = out + ev(a)
                return out
            if x.is_Mul:
                out = 1
                for a in x.args:
                    out = out * ev(a)
                return out
            if x.is_Pow:
                b = ev(x.base)
                if x.exp.is_Integer:
                    k = int(x.exp)
                    return b**k if k > 0 else 1 / b**(-k)
                if abs(float(x.exp) - 0.5) < 1e-15:
                    return b.sqrt() if hasattr(b, 'sqrt') else np.sqrt(b)
            raise TypeError('unsupported relation %s' % x)

        def frac(x):
            from fractions import Fraction
            from symx import expr as SE
            return SE.const(Fraction(int(x.p), int(x.q)))
        return ev(self.expr)


NAMES = ['bulk', 'lam', 'mu', 'young', 'poisson', 'p_wave']


def h_ec(ctx, pair, lo, hi, again=None):
    from sfepy.mechanics import elastic_constants as ec
    E, nu = youngpoisson(ctx, lo, hi)
    la, mu = lame(E, nu)
    true = dict(young=E, poisson=nu, lam=la, mu=mu,
                bulk=E / (3 * (1 - 2 * nu)), p_wave=la + 2 * mu)
    ctx.true(sorted(ec.names) == sorted(NAMES), 'names')

    def fun(mc):
        if again is None:
            c = mc.ElasticConstants(**{k: true[k] for k in pair})
        else:
            c = mc.ElasticConstants(**{k: true[k] * 2 for k in again})
            c.init(**{k: true[k] for k in pair})
        return c.get(NAMES)
    got = with_rel(ctx, fun)
    for k, v in zip(NAMES, got):
        ctx.eq(v, true[k], '%s of %s' % (k, ', '.join(pair)))


def with_rel(ctx, fun):
    """Call with relations evaluated exactly."""
    from sfepy.mechanics import matcoefs as mc
    from sfepy.mechanics import elastic_constants as ec
    saved = ec.relations
    if ctx.sym:
        ec.relations = {k: Rel(v, k) for k, v in saved.items()}
        mc.float = lambda x: x
    try:
        return fun(mc)
    finally:
        ec.relations = saved
        if ctx.sym:
            del mc.float


def h_ec_root(ctx, pair):
    """Pairs with square roots satisfy the defining equations."""
    a = ctx.real('a', lo=0.5, hi=1)
    if pair == ['young', 'p_wave']:
        b = a * ctx.real('b', lo=1.0, hi=4)
    else:
        b = a * ctx.real('b', lo=-2.0, hi=2)
    c = with_rel(ctx, lambda mc: mc.ElasticConstants(**{pair[0]: a,
                                                        pair[1]: b}))
    E, nu, la, mu, K, M = [getattr(c, k) for k in (
        'young', 'poisson', 'lam', 'mu', 'bulk', 'p_wave')]
    ctx.eq(E * (la + mu), mu * (3 * la + 2 * mu), 'Young modulus')
    ctx.eq(M, la + 2 * mu, 'P-wave modulus')
    ctx.eq(3 * K, 3 * la + 2 * mu, 'bulk modulus')
    ctx.eq(nu * 2 * (la + mu), la, 'Poisson ratio')
    ctx.true(mu > 0, 'shear modulus')
    ctx.true(K > 0, 'bulk modulus is positive')
    if pair[1] == 'p_wave':
        ctx.true(la >= 0, 'sign of lambda')


def h_ec_lam0(ctx):
    """Vanishing first Lame parameter."""
    from sfepy.mechanics import matcoefs as mc
    for pair in itertools.combinations(NAMES, 2):
        if set(pair) == {'lam', 'poisson'}:
            continue
        true = dict(young=2.0, poisson=0.0, lam=0.0, mu=1.0, bulk=2.0 / 3,
                    p_wave=2.0)
        if set(pair) & {'bulk'}:
            true = dict(young=3.0, poisson=0.0, lam=0.0, mu=1.5, bulk=1.0,
                        p_wave=3.0)
        with ctx.concrete():
            c = mc.ElasticConstants(**{k: true[k] for k in pair})
        for k in NAMES:
            v = getattr(c, k)
            ctx.true(np.abs(v - true[k]) < 1e-6, '%s of %s' % (
                k, ', '.join(pair)))


def h_ec_bad(ctx):
    from sfepy.mechanics import matcoefs as mc
    for n in (0, 1, 3, 4):
        for comb in itertools.combinations(NAMES, n):
            ctx.raises(ValueError, lambda: mc.ElasticConstants(
                **{k: 1.0 for k in comb}), 'number of constants')


def h_waves(ctx):
    from sfepy.mechanics import matcoefs as mc
    E, nu = youngpoisson(ctx)
    rho = ctx.real('rho', lo=0.5, hi=2)
    la, mu = lame(E, nu)
    vp, vs = mc.wave_speeds_from_youngpoisson(E, nu, rho)
    ctx.eq(vp * vp * rho, la + 2 * mu, 'P wave')
    ctx.eq(vs * vs * rho, mu, 'S wave')
    ctx.le(0, vs, 'sign')
    ctx.le(0, vp, 'sign')
    p = ctx.real('vp', lo=2, hi=3)
    s = ctx.real('vs', lo=0.5, hi=1.25)
    E2, n2 = mc.youngpoisson_from_wave_speeds(p, s, rho)
    l2, m2 = lame(E2, n2)
    ctx.eq(m2, rho * s * s, 'mu of speeds')
    ctx.eq(l2 + 2 * m2, rho * p * p, 'P wave modulus of speeds')


# -- plane transformations -------------------------------------------------

def solve(A, b):
    """Cramer's rule for lists of scalars."""
    d = det(A)
    n = len(A)
    out = []
    for k in range(n):
        B = [[b[i] if j == k else A[i][j] for j in range(n)]
             for i in range(n)]
        out.append(det(B) / d)
    return out


def det(A):
    n = len(A)
    if n == 1:
        return A[0][0]
    out = 0
    for j in range(n):
        if isinstance(A[0][j], (int, float)) and A[0][j] == 0:
            continue
        m = [[A[i][k] for k in range(n) if k != j] for i in range(1, n)]
        out = out + (-1)**j * A[0][j] * det(m)
    return out


def h_plane(ctx, plane, syms, piezo):
    """Eliminated stresses (and electric displacements) vanish."""
    from sfepy.mechanics import matcoefs as mc
    rng = np.random.RandomState(5)
    c = np.diag([4.0, 5.0, 6.0, 2.0, 2.5, 3.0])
    c = c + np.round(rng.uniform(-0.5, 0.5, (6, 6)) * 8) / 8
    c = 0.5 * (c + c.T)
    d = np.diag([1.0, 2.0, 1.5]) + 0.25 * np.array(
        [[0, 1, -1], [1, 0, 0.5], [-1, 0.5, 0]])
    b = np.round(rng.uniform(-1, 1, (3, 6)) * 8) / 8
    c, d, b = [v.astype(object) if ctx.sym else v for v in (c, d, b)]
    for k, (l, i, j) in enumerate(syms):
        v = {'c': c, 'd': d, 'b': b}[l]
        x = ctx.real('x%d' % k, lo=float(v[i, j]) - 0.25,
                     hi=float(v[i, j]) + 0.25)
        v[i, j] = x
        if l in 'cd':
            v[j, i] = x
    c, d, b = [fe.ctx_wrap(ctx, v) for v in (c, d, b)]
    tr = mc.TransformToPlane(list(plane))
    im = {(0, 1): [0, 1, 3], (0, 2): [0, 2, 4],
          (1, 2): [1, 2, 5]}[tuple(sorted(plane))]
    is_ = [k for k in range(6) if k not in im]
    vm = sorted(plane)
    vs = [k for k in range(3) if k not in vm]
    if not piezo:
        c2 = tr.tensor_plane_stress(c)
        for k in range(3):
            e = [float(i == k) for i in range(3)]
            A = [[c[i, j] for j in is_] for i in is_]
            es = solve(A, [-sum(c[i, j] * x for j, x in zip(im, e))
                           for i in is_])
            for n, i in enumerate(im):
                s = sum(c[i, j] * x for j, x in zip(im, e)) \
                    + sum(c[i, j] * x for j, x in zip(is_, es))
                ctx.eq(c2[n, k], s, 'plane stress stiffness')
        return
    c2, d2, b2 = tr.tensor_plane_stress(c, d, b)
    ctx.true(np.shape(b2) == (2, 3) and np.shape(d2) == (2, 2), 'shapes')
    A = [[c[i, j] for j in is_] + [b[g, i] for g in vs] for i in is_]
    A += [[b[g, j] for j in is_] + [-d[g, h] for h in vs] for g in vs]
    for k in range(5):
        e = [float(i == k) for i in range(3)]
        g = [float(i + 3 == k) for i in range(2)]
        rhs = [-sum(c[i, j] * x for j, x in zip(im, e))
               - sum(b[q, i] * x for q, x in zip(vm, g)) for i in is_]
        rhs += [-sum(b[q, j] * x for j, x in zip(im, e))
                + sum(d[q, h] * x for h, x in zip(vm, g)) for q in vs]
        sol = solve(A, rhs)
        es, gs = sol[:3], sol[3:]
        for n, i in enumerate(im):
            s = sum(c[i, j] * x for j, x in zip(im + is_, e + es)) \
                + sum(b[q, i] * x for q, x in zip(vm + vs, g + gs))
            t = c2[n, k] if k < 3 else b2[k - 3, n]
            ctx.eq(t, s, 'plane stress: stress of load %d' % k)
        for n, q in enumerate(vm):
            s = sum(b[q, j] * x for j, x in zip(im + is_, e + es)) \
                - sum(d[q, h] * x for h, x in zip(vm + vs, g + gs))
            t = b2[n, k] if k < 3 else -d2[n, k - 3]
            ctx.eq(t, s, 'plane stress: displacement of load %d' % k)


# -- tensors ---------------------------------------------------------------

FULL = {1: [[0]], 2: [[0, 2], [2, 1]], 3: [[0, 3, 4], [3, 1, 5], [4, 5, 2]]}


def full(s, dim):
    """(n, sym) -> list of matrices."""
    return [[[v[FULL[dim][i][j]] for j in range(dim)] for i in range(dim)]
            for v in s]


def h_parts(ctx, dim):
    from sfepy.mechanics import tensors as te
    sym = dim * (dim + 1) // 2
    ctx.same(te.dim2sym(dim), sym, 'size')
    ctx.same(te.sym2dim(sym), dim, 'dimension')
    s = ctx.real('s', (2, sym), lo=-1, hi=1)
    f = full(s, dim)
    ff = fe.ctx_wrap(ctx, np.array(f, dtype=object if ctx.sym else float))
    ctx.same(te.get_full_indices(dim), FULL[dim], 'full indices')
    iif, iis = te.get_full_indices(dim), te.get_sym_indices(dim)
    ctx.eq(s[:, iif], ff, 'full storage')
    ctx.eq(ff.reshape((2, -1))[:, iis], s, 'symmetric storage')
    tr = [sum(m[i][i] for i in range(dim)) for m in f]
    for st, x in ((True, s), (False, ff)):
        ctx.eq(te.get_trace(x, sym_storage=st), np.array(tr), 'trace')
        v = te.get_volumetric_tensor(x, sym_storage=st)
        d = te.get_deviator(x, sym_storage=st)
        ctx.eq(v + d, x, 'sum of parts')
        ctx.eq(te.get_trace(d, sym_storage=st), np.zeros(2),
               'trace of deviator')
        v = v[:, iif] if st else v
        for k in range(2):
            for i in range(dim):
                for j in range(dim):
                    ctx.eq(v[k, i, j], tr[k] / dim if i == j else 0,
                           'volumetric part')
        vm = te.get_von_mises_stress(x, sym_storage=st)
        ctx.true(np.shape(vm) == (2, 1), 'shape')
        for k in range(2):
            M = f[k]
            if dim == 2:
                M = [r + [0] for r in M] + [[0, 0, 0]]
            t = sum(M[i][i] for i in range(3)) / 3
            J = sum((M[i][j] - (t if i == j else 0))**2
                    for i in range(3) for j in range(3))
            ctx.eq(vm[k, 0] * vm[k, 0], J * 3 / 2, 'von Mises stress')
            ctx.le(0, vm[k, 0], 'sign')
    i1, i2 = te.get_non_diagonal_indices(dim)
    ctx.true(sorted(zip(i1, i2)) == sorted(
        (i * dim + j, j * dim + i) for i in range(dim)
        for j in range(i + 1, dim)), 'non-diagonal indices')


def h_strain(ctx, dim):
    from sfepy.mechanics import tensors as te
    g = ctx.real('g', (2, dim, dim), lo=-1, hi=1)
    e = te.get_cauchy_strain(g)
    sym = dim * (dim + 1) // 2
    ctx.true(np.shape(e) == (2, sym, 1), 'shape')
    for k in range(2):
        for i in range(dim):
            for j in range(i, dim):
                ctx.eq(e[k, FULL[dim][i][j], 0],
                       g[k, i, i] if i == j else g[k, i, j] + g[k, j, i],
                       'strain')


def h_t4(ctx, dim):
    from sfepy.mechanics import tensors as te
    sym = dim * (dim + 1) // 2
    D = ctx.real('D', (sym, sym), lo=-1, hi=1)
    t = te.get_t4_from_t2s(D)
    F = FULL[dim]
    for i, j, k, l in itertools.product(range(dim), repeat=4):
        ctx.eq(t[i, j, k, l], D[F[i][j], F[k][l]], 'component')


def rotation(ctx, n=3, prefix='q'):
    """Cayley parametrised rotation and its numerators."""
    q = ctx.real(prefix, 3, lo=-1, hi=1)
    for k in range(n, 3):
        q[k] = [0.5, -0.25, 0.75][k]
    a, b, c = q[0], q[1], q[2]
    s = 1 + a * a + b * b + c * c
    R = [[1 + a * a - b * b - c * c, 2 * (a * b - c), 2 * (a * c + b)],
         [2 * (a * b + c), 1 - a * a + b * b - c * c, 2 * (b * c - a)],
         [2 * (a * c - b), 2 * (b * c + a), 1 - a * a - b * b + c * c]]
    return [[R[i][j] / s for j in range(3)] for i in range(3)]


def arr(ctx, x):
    return fe.ctx_wrap(ctx, np.array(x, dtype=object if ctx.sym else float))


def mm(*As):
    out = As[0]
    for B in As[1:]:
        out = [[sum(out[i][k] * B[k][j] for k in range(len(B)))
                for j in range(len(B[0]))] for i in range(len(out))]
    return out


def T(A):
    return [list(x) for x in zip(*A)]


def h_transform(ctx, kind, nq):
    from sfepy.mechanics import tensors as te
    Rs = [rotation(ctx, nq, 'q'), rotation(ctx, 0, 'r')]
    mtx = arr(ctx, Rs)
    if kind == 'vector':
        v = ctx.real('v', (2, 3), lo=-1, hi=1)
        out = te.transform_data(v, mtx=mtx)
        for k in range(2):
            for i in range(3):
                ctx.eq(out[k, i], sum(Rs[k][i][j] * v[k, j]
                                      for j in range(3)), 'vector')
    elif kind in ('sym', 'sym1'):
        v = ctx.real('v', (2, 6), lo=-1, hi=1)
        out = te.transform_data(v if kind == 'sym' else v[..., None],
                                mtx=mtx)
        if kind == 'sym1':
            ctx.true(np.shape(out) == (2, 6, 1), 'shape')
            out = out[..., 0]
        for k, M in enumerate(full(v, 3)):
            want = mm(Rs[k], M, T(Rs[k]))
            for i in range(3):
                for j in range(3):
                    ctx.eq(out[k, FULL[3][i][j]], want[i][j], 'tensor')
    else:
        ii, jj = kind
        D = ctx.real('D', (2, 6, 6), lo=-1, hi=1)
        for i in range(6):
            for j in range(6):
                if (i, j) not in ((ii, jj), (0, 3), (5, 1)):
                    D[:, i, j] = 0.25 * i - 0.5 * j
        out = te.transform_data(D, mtx=mtx)
        ctx.true(np.shape(out) == (2, 6, 6), 'shape')
        F = FULL[3]
        pos = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]
        for k in range(2):
            R = Rs[k]
            for n, (i, j) in enumerate(pos):
                for m, (p, q) in enumerate(pos):
                    if k == 0 and (n, m) not in ((0, 0), (0, 3), (4, 5),
                                                 (3, 1), (2, 4)):
                        continue
                    s = sum(R[i][a] * R[j][b] * R[p][c] * R[q][d]
                            * D[k, F[a][b], F[c][d]]
                            for a, b, c, d in itertools.product(
                                range(3), repeat=4))
                    ctx.eq(out[k, n, m], s, 'fourth order tensor')


def h_cyl(ctx, mode):
    from sfepy.mechanics import tensors as te
    x = ctx.real('x', (1, 3), lo=0.25, hi=1)
    sx, sy = ctx.choice('sx', 2), ctx.choice('sy', 2)
    o = [0.5, -0.25, 1.0]
    X = x * np.array([[1 - 2 * sx, 1 - 2 * sy, 1]])
    M = te.prepare_cylindrical_transform(X + np.array([o]), o, mode=mode)
    r2 = X[0, 0]**2 + X[0, 1]**2
    # r times the radial and circumferential components
    er = [X[0, 0], X[0, 1], 0]
    et = [-X[0, 1], X[0, 0], 0]
    A = M[0]
    if mode == 'data':
        A = A.T
    for row, e in ((0, er), (1, et)):
        for j in range(3):
            ctx.eq(A[row, j] * A[row, j] * r2, e[j] * e[j], 'unit vector')
            ctx.true(A[row, j] * e[j] >= 0, 'direction')
    ctx.eq(A[2], np.array([0.0, 0, 1]), 'axis')
    if mode == 'axes':
        v = ctx.real('v', (1, 3), lo=-1, hi=1)
        Y = X
        M0 = te.prepare_cylindrical_transform(Y, [0.0, 0.0, 0.0])
        ctx.eq(te.transform_data(v, coors=Y),
               te.transform_data(v, mtx=M0), 'cylindrical components')


def h_errors(ctx):
    from sfepy.mechanics import tensors as te
    v = np.zeros((2, 3))
    ctx.raises(ValueError, lambda: te.transform_data(v), 'no matrix')
    ctx.raises(ValueError, lambda: te.transform_data(
        v, mtx=np.zeros((3, 3, 3))), 'numbers of points')
    ctx.raises(ValueError, lambda: te.transform_data(
        np.zeros((2, 4)), mtx=np.zeros((2, 3, 3))), 'shape')


def h_stress(ctx, dim, jac):
    from sfepy.mechanics import tensors as te
    F = ctx.real('F', (1, 2, dim, dim), lo=-0.25, hi=0.25)
    if dim == 3:
        for k in range(2):
            for i, j in ((0, 1), (2, 0), (1, 2)):
                F[0, k, i, j] = 0.125 * (i - j)
    F = F + np.eye(dim)
    sym = dim * (dim + 1) // 2
    S = ctx.real('S', (1, 2, sym, 1), lo=-1, hi=1)
    J = [det([[F[0, k, i, j] for j in range(dim)] for i in range(dim)])
         for k in range(2)]
    jj = None
    if jac:
        jj = arr(ctx, [[[[J[0]]], [[J[1]]]]])
    st = te.StressTransform(F, jj)
    P = st.get_1pk_from_2pk(S)
    c = st.get_cauchy_from_2pk(S)
    ctx.true(np.shape(P) == (1, 2, dim, dim), 'shape of 1PK')
    ctx.true(np.shape(c) == (1, 2, sym, 1), 'shape of Cauchy')
    for k in range(2):
        M = full(S[0, :, :, 0], dim)[k]
        FF = [[F[0, k, i, j] for j in range(dim)] for i in range(dim)]
        FS = mm(FF, M)
        FSF = mm(FS, T(FF))
        for i in range(dim):
            for j in range(dim):
                ctx.eq(P[0, k, i, j], FS[i][j], '1PK')
                ctx.eq(c[0, k, FULL[dim][i][j], 0] * J[k], FSF[i][j],
                       'Cauchy')


# -- shell geometry --------------------------------------------------------

def h_shell_D(ctx, corr):
    from sfepy.mechanics import shell10x as sh
    E, nu = youngpoisson(ctx, -0.75, 0.49)
    D = sh.create_elastic_tensor(E, nu, shear_correction=corr)
    k = E / (1 - nu * nu)
    G = E / (2 * (1 + nu))
    g = G * 5 / 6 if corr else G
    want = [[k, k * nu, 0, 0, 0, 0], [k * nu, k, 0, 0, 0, 0], [0] * 6,
            [0, 0, 0, G, 0, 0], [0, 0, 0, 0, g, 0], [0, 0, 0, 0, 0, g]]
    for i in range(6):
        for j in range(6):
            if i == j == 2:
                continue
            ctx.eq(D[i, j], want[i][j], 'entry')


def quad(ctx, R, pert):
    X = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]], dtype=float)
    X = X + np.array([[0.125, 0, 0], [0, 0.25, 0], [0.25, 0, 0],
                      [0, -0.125, 0]])
    X = X.astype(object) if ctx.sym else X
    for k, (i, j) in enumerate(pert):
        X[i, j] = X[i, j] + ctx.real('p%d' % k, lo=-0.125, hi=0.125)
    return [[sum(R[a][b] * X[i, b] for b in range(3)) for a in range(3)]
            for i in range(4)]


def h_shell_T(ctx, pert):
    """The transformation is orthonormal and puts plane cells to x-y."""
    from sfepy.mechanics import shell10x as sh
    import math
    R = [[2 / 3, -2 / 3, 1 / 3], [1 / 3, 2 / 3, 2 / 3],
         [-2 / 3, -1 / 3, 2 / 3]]
    X = quad(ctx, R, pert)
    M = sh.create_transformation_matrix(arr(ctx, [X]))[0]
    n = [sum(R[i][j] * v for j, v in enumerate((0, 0, 1)))
         for i in range(3)]
    for i in range(3):
        ctx.eq(M[i, 2], n[i], 'normal')
    for a in range(3):
        for b in range(a, 3):
            s = sum(M[i, a] * M[i, b] for i in range(3))
            ctx.eq(s, float(a == b), 'orthonormality')
    t1 = [X[1][i] + X[2][i] - X[0][i] - X[3][i] for i in range(3)]
    c = [n[1] * t1[2] - n[2] * t1[1], n[2] * t1[0] - n[0] * t1[2],
         n[0] * t1[1] - n[1] * t1[0]]
    ctx.true(sum(c[i] * M[i, 1] for i in range(3)) > 0, 'right-handed')
    ctx.eq(sum(t1[i] * M[i, 1] for i in range(3)), 0, 'first direction')
    ctx.true(sum(t1[i] * M[i, 0] for i in range(3)) > 0, 'orientation')


def h_shell_rot(ctx):
    """Blocks of matrices are rotated, rotation operators skew."""
    from sfepy.mechanics import shell10x as sh
    R = rotation(ctx, 1)
    n = 6
    K = ctx.real('K', (1, 1, n, n), lo=-1, hi=1)
    out = arr(ctx, K.copy())
    blocks = np.array([[0, 2, 4], [1, 3, 5]])
    sh.transform_asm_matrices(out, arr(ctx, [R]), blocks)
    for p in range(2):
        for q in range(2):
            B = [[K[0, 0, i, j] for j in blocks[q]] for i in blocks[p]]
            W = mm(R, B, T(R))
            for i in range(3):
                for j in range(3):
                    ctx.eq(out[0, 0, blocks[p][i], blocks[q][j]], W[i][j],
                           'block')
    # strain transform: Q e is T E T^T
    M = ctx.real('M', (1, 1, 3, 3), lo=-1, hi=1)
    e = ctx.real('e', 6, lo=-1, hi=1)
    Q = sh.create_strain_transform(M)[0, 0]
    Em = [[e[FULL[3][i][j]] * (1 if i == j else 0.5) for j in range(3)]
          for i in range(3)]
    L = [[M[0, 0, i, j] for j in range(3)] for i in range(3)]
    W = mm(L, Em, T(L))
    for i in range(3):
        for j in range(i, 3):
            r = FULL[3][i][j]
            ctx.eq(sum(Q[r, k] * e[k] for k in range(6)),
                   W[i][j] * (1 if i == j else 2), 'strain')
    eb = ctx.real('b', (1, 4, 3, 3), lo=-1, hi=1)
    ro = sh.create_rotation_ops(eb)
    for v in range(4):
        for i in range(3):
            for j in range(3):
                ctx.eq(ro[0, v, i, j], eb[0, v, 0, i] * eb[0, v, 1, j]
                       - eb[0, v, 0, j] * eb[0, v, 1, i], 'rotation operator')


def cases(tier):
    from symx.runner import Case
    out = []

    def add(name, h, p, **kw):
        out.append(Case(name, h, p, **kw))
    for dim in (1, 2, 3):
        for plane in ('strain', 'stress'):
            if dim > 1:
                add('isotropic %dD %s' % (dim, plane), 'h_iso',
                    dict(dim=dim, plane=plane))
    add('isotropic arrays', 'h_iso_array', {})
    ps = [[('E', 0), ('nu', 1)], [('nu', 0), ('nu', 2)], [('E', 2), ('G', 0)],
          [('G', 1), ('nu', 2)], [('E', 1), ('G', 2)]]
    for k, w in enumerate(ps):
        add('orthotropic %d' % k, 'h_ortho', dict(which=w))
    for pair in itertools.combinations(NAMES, 2):
        s = set(pair)
        for lo, hi in ((0.05, 0.45), (-0.85, -0.05)):
            if s in ({'young', 'p_wave'}, {'young', 'lam'}):
                continue
            add('constants %s %s' % (' '.join(pair), 'pos' if lo > 0
                                     else 'neg'), 'h_ec',
                dict(pair=list(pair), lo=lo, hi=hi))
    for pair in (['young', 'p_wave'], ['young', 'lam']):
        add('constants root %s' % ' '.join(pair), 'h_ec_root',
            dict(pair=pair))
    add('constants again', 'h_ec', dict(pair=['bulk', 'mu'], lo=0.05, hi=0.45,
                                        again=['young', 'poisson']))
    add('constants of zero Poisson ratio', 'h_ec_lam0', {})
    add('constants count', 'h_ec_bad', {})
    add('wave speeds', 'h_waves', {})
    cs = [[('c', 2, 2), ('c', 0, 2), ('c', 3, 4)],
          [('c', 0, 5), ('c', 1, 1), ('c', 4, 4)],
          [('c', 1, 2), ('c', 0, 3), ('c', 5, 5)]]
    bs = [[('b', 2, 2), ('d', 2, 2)], [('b', 0, 1), ('d', 0, 2)],
          [('b', 1, 5), ('d', 1, 1)], [('b', 0, 3), ('d', 1, 2)],
          [('c', 2, 4), ('b', 1, 2)]]
    for plane in ((0, 1), (0, 2), (1, 2), (2, 0), (1, 0)):
        for k, s in enumerate(cs):
            add('plane %s stress %d' % (plane, k), 'h_plane',
                dict(plane=plane, syms=s, piezo=False))
        for k, s in enumerate(bs):
            add('plane %s piezo %d' % (plane, k), 'h_plane',
                dict(plane=plane, syms=s, piezo=True))
    for dim in (2, 3):
        add('parts %dD' % dim, 'h_parts', dict(dim=dim))
        add('fourth order storage %dD' % dim, 'h_t4', dict(dim=dim))
    for dim in (1, 2, 3):
        add('strain %dD' % dim, 'h_strain', dict(dim=dim))
    for kind in ('vector', 'sym', 'sym1'):
        add('rotated %s' % kind, 'h_transform', dict(
            kind=kind, nq=3 if kind == 'vector' else 2))
    for ii, jj in ((0, 0), (4, 2), (3, 5)):
        add('rotated t4 %d%d' % (ii, jj), 'h_transform', dict(
            kind=(ii, jj), nq=1))
    for mode in ('axes', 'data'):
        add('cylindrical %s' % mode, 'h_cyl', dict(mode=mode))
    add('transformation errors', 'h_errors', {})
    for dim in (2, 3):
        for jac in (False, True):
            add('stress transform %dD %d' % (dim, jac), 'h_stress',
                dict(dim=dim, jac=jac))
    for corr in (False, True):
        add('shell tensor %d' % corr, 'h_shell_D', dict(corr=corr))
    for k, p in enumerate([[(2, 0)], [(0, 1)], [(3, 0)]]):
        add('shell frame %d' % k, 'h_shell_T', dict(pert=p))
    add('shell blocks', 'h_shell_rot', {})
    return out


def warm():
    from symx import driver
    h_iso(driver.Ctx('conc'), 2, 'strain')
    h_ec(driver.Ctx('conc'), ['young', 'lam'], 0.05, 0.45)
    h_parts(driver.Ctx('conc'), 3)
    h_transform(driver.Ctx('conc'), 'sym', 1)
    h_shell_rot(driver.Ctx('conc'))
