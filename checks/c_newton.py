"""Nonlinear solvers: iterations, line search and the reported status."""
import numpy as np
import fe

PROPERTY = 'C14'
BOUNDS = ('1-2 unknowns, up to 3 iterations with up to 4 residual '
          'evaluations each; the residuals at all visited points (or a '
          'failure to compute them), linear system solutions, tolerances '
          'are arbitrary')
OUTSIDE = ('convergence itself, external solvers (SciPy, PETSc), IPC and '
           'cubic Newton line searches, logging')
ASSUMPTIONS = ['residuals are finite']


class Stop(Exception):
    pass


class System(object):
    """Residuals are arbitrary, any evaluation after the first can fail."""

    def __init__(self, ctx, n, fails, limit):
        self.ctx = ctx
        self.n = n
        self.fails = fails
        self.limit = limit
        self.evals = []
        self.grads = []
        self.solves = []
        self.hooks = []

    def fun(self, x):
        k = len(self.evals)
        if k >= self.limit:
            raise Stop
        bad = self.fails and k > 0 and bool(self.ctx.bool('fail%d' % k))
        r = None
        if not bad:
            r = self.ctx.real('r%d' % k, self.n, -2, 2)
        self.evals.append((x.copy(), r))
        if bad:
            raise ValueError('warp violation')
        return r

    def grad(self, x):
        k = len(self.grads)
        if isinstance(x, str):
            key = x
        else:
            key = x.copy()
        A = Jac(self.ctx, k, self.n)
        self.grads.append((key, A, len(self.evals)))
        return A


class Jac(object):
    def __init__(self, ctx, k, n):
        self.k = k
        self.a = None
        self.ctx = ctx
        self.n = n

    def __matmul__(self, x):
        return x * 2

    @property
    def T(self):
        return self


def make_ls(ctx, sysm):
    from sfepy.solvers.solvers import LinearSolver

    class LS(LinearSolver):
        name = 'ls.any'

        def __call__(self, rhs, x0=None, conf=None, eps_a=None, eps_r=None,
                     i_max=None, mtx=None, status=None, context=None,
                     **kwargs):
            k = len(sysm.solves)
            dx = ctx.real('dx%d' % k, sysm.n, -2, 2)
            sysm.solves.append((rhs.copy() if hasattr(rhs, 'copy') else rhs,
                                mtx, dx.copy(), len(sysm.evals), eps_a,
                                eps_r))
            if status is not None:
                status['n_iter'] = 3
            return dx
    return LS({})


def nrm2(r):
    s = 0
    for v in np.asarray(r).reshape(-1):
        s = s + v * v
    return s


def make_newton(ctx, conf, sysm, **kw):
    from sfepy.solvers.nls import Newton
    from sfepy.base.base import IndexedStruct
    base = dict(i_max=2, eps_a=1e-3, eps_r=1.0, ls_red=0.25,
                ls_red_warp=0.125, ls_min=0.05, lin_red=None, ls_on=0.5)
    base.update(conf)
    st = IndexedStruct()
    return Newton(base, fun=sysm.fun, fun_grad=sysm.grad,
                  lin_solver=make_ls(ctx, sysm), status=st, **kw), st


def h(ctx, n=1, i_max=2, fails=False, mode='and', linear=False, step_red=1.0,
      ls_mode='residual', newjac=None, give_up=False, scale=False, hook=False,
      loose=False, half=False):
    sysm = System(ctx, n, fails, 14)
    eps_a = ctx.real('eps_a', None, 1e-4, 1)
    eps_r = ctx.real('eps_r', None, 1e-4, 1)
    ls_on = ctx.real('ls_on', None, 0.1, 1)
    conf = dict(i_max=i_max, eps_a=eps_a, eps_r=eps_r, eps_mode=mode,
                is_linear=linear, step_red=step_red, ls_mode=ls_mode,
                ls_on=ls_on, give_up_warp=give_up)
    if loose:
        conf['ls_on'] = 1e6
        ls_on = 1e6
    if half:
        conf['ls_on'] = ls_on = 0.5
    jc = []
    if newjac is not None:
        def new(it, it_jac, rhs1, rhs0, x1, x0, context=None):
            jc.append((it, it_jac, rhs1, rhs0, x1.copy(), x0.copy()))
            return newjac[it % len(newjac)]
        conf['is_new_jacobian_fun'] = new
    if scale:
        conf['scale_system_fun'] = lambda m, r, x, c: (m, r * 4, x)
        conf['scale_solution_fun'] = lambda x, c: x * 0.5
    kw = {}
    hooks = []
    if hook:
        def iter_hook(context, nls, vec, it, err, err0):
            hooks.append((vec.copy(), it, err, err0))
        kw['iter_hook'] = iter_hook
    s, st = make_newton(ctx, conf, sysm, **kw)
    x0 = ctx.real('x', n, -1, 1)
    ev = sysm.evals
    try:
        out = s(x0.copy())
        exc = None
    except Stop:
        return
    except ValueError as e:
        out, exc = None, e
    # Replay of the documented algorithm on the recorded values.
    ctx.eq(ev[0][0], x0, 'first evaluation in the initial guess')
    if exc is not None:
        # Only given up when the last evaluation failed with the smallest
        # step.
        ctx.true(ev[-1][1] is None, 'error only if the residual fails')
    it, k, isol = 0, 0, 0
    igrad = 0
    x, r = x0, ev[0][1]
    err0 = np.sqrt(nrm2(r)) if not ctx.sym else nrm2(r) ** 0.5
    err = err0
    k = 1
    last = None
    curjac = None
    itj = 0
    gave_up = False
    while True:
        if hook:
            hk = hooks[it]
            ctx.same(hk[1], it, 'hook: iteration')
        conv_a = bool(err <= eps_a)
        if it > 0:
            conv_r = bool(err <= eps_r * err0)
            ok = (conv_a and conv_r) if mode == 'and' else (conv_a or conv_r)
        else:
            ok = conv_a
        cond = 0 if ok else (1 if it >= i_max else -1)
        if gave_up:
            cond = 2
        if cond >= 0:
            break
        # Tangent matrix.
        if linear:
            ctx.true(igrad < len(sysm.grads), 'matrix')
            key, curjac, ne = sysm.grads[igrad]
            igrad += 1
            ctx.true(isinstance(key, str) and key == 'linear',
                     'linear problem matrix')
        else:
            want = newjac is None or newjac[it % len(newjac)] \
                or curjac is None
            if newjac is not None:
                a = jc[it]
                ctx.same([a[0], a[1]], [it, itj], 'matrix update test')
                ctx.eq(a[2], r, 'matrix update test: residual')
                ctx.eq(a[4], x, 'matrix update test: state')
                if it:
                    ctx.eq(a[3], last[1], 'matrix update test: last residual')
                ctx.eq(a[5], last[0] if it else x0,
                       'matrix update test: last state')
            if want:
                ctx.true(igrad < len(sysm.grads), 'matrix is updated')
                key, curjac, ne = sysm.grads[igrad]
                igrad += 1
                itj = it
                ctx.eq(key, x, 'matrix in the current state')
        rhs, mtx, dx, ne, _, _ = sysm.solves[isol]
        isol += 1
        ctx.eq(rhs, r * 4 if scale else r, 'right-hand side')
        ctx.true(mtx is curjac, 'matrix of the system')
        if scale:
            dx = dx * 0.5
        dx0 = dx * step_red
        it += 1
        last = (x, r)
        err_last = err
        # Line search.
        ls = 1.0
        d = dx0
        while True:
            ctx.true(k < len(ev), 'residual evaluated')
            xe, re = ev[k]
            k += 1
            ctx.eq(xe, last[0] - d, 'new iterate')
            if re is None:
                if ls < 0.05:
                    ctx.true(exc is not None and k == len(ev),
                             'error if the residual cannot be computed')
                    return
                if give_up:
                    gave_up = True
                    break
                red = 0.125
            else:
                e = np.sqrt(nrm2(re)) if not ctx.sym else nrm2(re) ** 0.5
                if ls_mode == 'residual':
                    if bool(e < err_last * ls_on):
                        break
                else:
                    rhs, mtx, d2, _, _, _ = sysm.solves[isol]
                    isol += 1
                    ctx.eq(rhs, re, 'simplified correction')
                    if n == 1:
                        # linear conditions
                        less = bool(abs(d2[0]) < abs(dx0[0]) * ls_on)
                    else:
                        less = bool(nrm2(d2) < nrm2(dx0) * ls_on * ls_on)
                    if less:
                        break
                red = 0.25
            if ls < 0.05:
                break
            ls = ls * red
            d = dx0 * ls
        if not gave_up:
            x, r, err = xe, re, e
    ctx.true(exc is None, 'no error')
    if exc is not None:
        return
    ctx.same(k, len(ev), 'number of residual evaluations')
    ctx.same(isol, len(sysm.solves), 'number of linear systems')
    ctx.same(igrad, len(sysm.grads), 'number of matrices')
    ctx.same(st['condition'], cond, 'condition')
    ctx.same(st['n_iter'], it, 'number of iterations')
    ctx.eq(out, x, 'returned state')
    ctx.eq(st['err'], err, 'error of the returned state')
    ctx.eq(st['err0'], err0, 'initial error')
    ctx.same(st['ls_n_iter'], 3 * it, 'linear iterations')


def h_conv(ctx, mode):
    from sfepy.solvers.nls import conv_test
    from sfepy.base.base import Struct
    e, e0 = ctx.real('err', None, 0, 2), ctx.real('err0', None, 0, 2)
    ea, er = ctx.real('ea', None, 0, 1), ctx.real('er', None, 0, 1)
    mach = 1e-10
    imax = ctx.choice('imax', 4)
    it = ctx.choice('it', 5)
    conf = Struct(macheps=mach, eps_a=ea, eps_r=er, i_max=imax, eps_mode=mode)
    st = conv_test(conf, it, e, e0)
    a = bool(e <= ea)
    if it == 0:
        ok = a
    else:
        r = True if bool(e0 < mach) else bool(e <= er * e0)
        ok = (a and r) if mode == 'and' else (a or r)
    ctx.same(st, 0 if ok else (1 if it >= imax else -1), 'status')


# --- semi-smooth Newton method

def affine(ctx, name, m, n):
    A = ctx.real(name + 'A', (m, n), -1, 1)
    b = ctx.real(name + 'b', m, -1, 1)

    def fun(x):
        out = []
        for i in range(m):
            s = b[i]
            for j in range(n):
                s = s + A[i, j] * x[j]
            out.append(s)
        return np.array(out, dtype=object if ctx.sym else float)
    return A, fun


def sparse(ctx, A):
    import scipy.sparse as sp
    from symx import symnp as N
    m, n = np.shape(A)
    M = sp.csr_array(np.ones((m, n)))
    if ctx.sym:
        M.data = N.wrap(N.A(np.asarray(A.reshape(-1))))
    else:
        M.data[:] = A.reshape(-1)
    return M


def h_semismooth(ctx, semi, n=2, m=1):
    """The Jacobian is the derivative of the residual (away from the kink)."""
    from sfepy.solvers.semismooth_newton import SemismoothNewton
    ns = n - m
    s = SemismoothNewton(dict(semismooth=semi))
    F, f = affine(ctx, 'f', ns, n)
    A, a = affine(ctx, 'a', m, n)
    B, b = affine(ctx, 'b', m, n)
    x = ctx.real('x', n, -1, 1)
    av, bv = a(x), b(x)
    for i in range(m):
        if semi:
            ctx.assume(av[i] * av[i] + bv[i] * bv[i] >= 0.01)
        else:
            ctx.assume((av[i] - bv[i]) * (av[i] - bv[i]) >= 0.01)
    J = s.compute_jacobian(x, lambda x: sparse(ctx, F),
                           lambda x: sparse(ctx, A), lambda x: sparse(ctx, B),
                           f(x), av, bv)
    D = J.toarray() if hasattr(J, 'toarray') else np.asarray(J)

    ctx.same(D.shape, (n, n), 'shape')
    ctx.eq(D[:ns], F, 'smooth part')
    for i in range(m):
        if semi:
            q = (av[i] * av[i] + bv[i] * bv[i]) ** 0.5
            for j in range(n):
                ctx.eq(D[ns + i, j] * q, (av[i] - q) * A[i, j]
                       + (bv[i] - q) * B[i, j], 'semi-smooth part')
        else:
            less = bool(av[i] < bv[i])
            ctx.eq(D[ns + i], A[i] if less else B[i], 'non-smooth part')


class SMtx(object):
    """A matrix with arbitrary products."""

    def __init__(self, log, ctx, tr=False):
        self.log, self.ctx, self.tr = log, ctx, tr

    def __matmul__(self, x):
        k = len(self.log)
        y = self.ctx.real('Jx%d' % k, len(x), -2, 2)
        self.log.append((self.tr, x.copy(), y.copy()))
        return y

    @property
    def T(self):
        return SMtx(self.log, self.ctx, True)


def h_semi_loop(ctx, i_max=2, fails=False, semi=False, ls_on=0.5, smooth=True,
                lin=True, limit=7):
    """Iterations of the semi-smooth solver with arbitrary residuals."""
    from sfepy.solvers.semismooth_newton import SemismoothNewton
    from sfepy.base.base import IndexedStruct
    eps_a = ctx.real('eps_a', None, 1e-4, 1)
    eps_r = ctx.real('eps_r', None, 1e-4, 1)
    red = {'regular': 0.125, 'steepest_descent': 0.0625}
    conf = dict(semismooth=semi, i_max=i_max, eps_a=eps_a, eps_r=eps_r,
                ls_on=ls_on, ls_red=red, ls_red_warp=0.25, ls_min=0.2,
                lin_red=0.5)
    st = IndexedStruct()
    sysm = System(ctx, 2 if smooth else 1, fails, limit)
    prods, jacs = [], []
    ab = []

    def fun(x):
        k = len(sysm.evals)
        if k >= limit:
            raise Stop
        if fails and k > 0 and bool(ctx.bool('fail%d' % k)):
            sysm.evals.append((x.copy(), None))
            raise ValueError('warp violation')
        r = ctx.real('r%d' % k, 1 if smooth else 0, -2, 2)
        if semi:
            q = [(3, 4), (-4, 3), (-12, -5), (0.0, 1)][ctx.choice('q%d' % k,
                                                                  4)]
            a, b = [ctx.const(np.array([float(v)])) for v in q]
        else:
            a = ctx.real('a%d' % k, 1, -2, 2)
            b = ctx.real('b%d' % k, 1, -2, 2)
        sysm.evals.append((x.copy(), (r, a, b)))
        return r

    def fa(x):
        ctx.eq(x, sysm.evals[-1][0], 'state of the first function')
        return sysm.evals[-1][1][1]

    def fb(x):
        ctx.eq(x, sysm.evals[-1][0], 'state of the second function')
        return sysm.evals[-1][1][2]

    def nothing(x):
        raise NotImplementedError
    s = SemismoothNewton(conf, lin_solver=make_ls(ctx, sysm), status=st,
                         fun_smooth=fun, fun_smooth_grad=nothing, fun_a=fa,
                         fun_a_grad=nothing, fun_b=fb, fun_b_grad=nothing)

    def jac(x, g, ga, gb, r, a, b):
        jacs.append((x.copy(), r, a, b))
        return SMtx(prods, ctx)
    s.compute_jacobian = jac
    n = 2 if smooth else 1
    x0 = ctx.real('x', n, -1, 1)
    ev = sysm.evals
    try:
        out = s(x0.copy())
        exc = None
    except Stop:
        return
    except ValueError as e:
        out, exc = None, e

    def full(t):
        r, a, b = t
        a, b = a[0], b[0]
        if semi:
            q = round(float((float(a) ** 2 + float(b) ** 2) ** 0.5))
            c = q - (a + b)
        else:
            c = ctx.ite(a < b, a, b)
        return list(r) + [c]

    def norm(r):
        s2 = nrm2(np.array(r, dtype=object if ctx.sym else float))
        return s2 ** 0.5
    ctx.eq(ev[0][0], x0, 'first evaluation in the initial guess')
    k, it, ij, isol, ip = 1, 0, 0, 0, 0
    x, t = x0, ev[0][1]
    r = full(t)
    err0 = err = norm(r)
    mode = 'regular'
    reuse = False
    while True:
        ok = bool(err <= eps_a)
        if it > 0:
            ok = ok and bool(err <= eps_r * err0)
        cond = 0 if ok else (1 if it >= i_max else -1)
        if cond >= 0:
            break
        if not reuse:
            ctx.true(ij < len(jacs), 'new Jacobian')
            jx, jr, ja, jb = jacs[ij]
            ij += 1
            ctx.eq(jx, x, 'Jacobian in the current state')
            for u, v in zip((jr, ja, jb), t):
                ctx.eq(u, v, 'Jacobian with the current residuals')
        reuse = False
        rr = np.array(r, dtype=object if ctx.sym else float)
        if mode == 'regular':
            ctx.true(isol < len(sysm.solves), 'linear system solved')
            rhs, mtx, dx, _, _, _ = sysm.solves[isol]
            isol += 1
            ctx.eq(rhs, rr, 'right-hand side')
            tr, px, py = prods[ip]
            ip += 1
            ctx.true(not tr, 'residual of the linear system')
            ctx.eq(px, dx, 'residual of the linear system')
            if bool(nrm2(py - rr) > (eps_a * 0.5) * (eps_a * 0.5)):
                mode = 'steepest_descent'
        if mode != 'regular':
            tr, px, py = prods[ip]
            ip += 1
            ctx.true(tr, 'steepest descent step')
            ctx.eq(px, rr, 'steepest descent from the residual in the state')
            dx = py
        it += 1
        ls = 1.0
        while True:
            ctx.true(k < len(ev), 'residual evaluated')
            xe, te = ev[k]
            k += 1
            ctx.eq(xe, x - dx * ls, 'new iterate')
            if te is None:
                if ls < 0.2:
                    ctx.true(exc is not None and k == len(ev),
                             'error if the residual cannot be computed')
                    return
                ls = ls * 0.25
                continue
            re = full(te)
            e = norm(re)
            if bool(e < err * ls_on):
                mode = 'regular'
                x, t, r, err = xe, te, re, e
                break
            if ls < 0.2:
                if mode == 'regular':
                    mode = 'steepest_descent'
                    reuse = True
                else:
                    x, t, r, err = xe, te, re, e
                break
            ls = ls * red[mode]
    ctx.true(exc is None, 'no error')
    if exc is not None:
        return
    ctx.same(k, len(ev), 'number of residual evaluations')
    ctx.same(isol, len(sysm.solves), 'number of linear systems')
    ctx.same(ij, len(jacs), 'number of Jacobians')
    ctx.same(ip, len(prods), 'number of matrix products')
    ctx.same(st['condition'], cond, 'condition')
    ctx.same(st['n_iter'], it, 'number of iterations')
    ctx.eq(out, x, 'returned state')
    ctx.eq(st['err'], err, 'error of the returned state')
    ctx.eq(st['err0'], err0, 'initial error')


def cases(tier):
    from symx.runner import Case
    th = tier == 'thorough'
    out = []

    def add(name, **kw):
        out.append(Case(name, 'h', kw))
    for mode in ('and', 'or'):
        out.append(Case('conv ' + mode, 'h_conv', dict(mode=mode)))
        for i_max in (0, 1, 2):
            add('newton %s %d' % (mode, i_max), mode=mode, i_max=i_max)
        add('newton loose %s 3' % mode, mode=mode, i_max=3, loose=True)
    add('newton 2 unknowns', n=2, i_max=1)
    add('newton failures', fails=True, i_max=1)
    add('newton failures loose', fails=True, i_max=2, loose=True)
    add('newton give up', fails=True, give_up=True, i_max=2, loose=True)
    add('newton give up or', fails=True, give_up=True, i_max=1, mode='or')
    add('newton linear', linear=True, i_max=2)
    add('newton reduced', step_red=0.5, i_max=2)
    add('newton error mode', ls_mode='error', i_max=1)
    add('newton error mode 2', ls_mode='error', i_max=2)
    add('newton error mode half', ls_mode='error', i_max=1, half=True)
    add('newton error mode half 2', ls_mode='error', i_max=2, half=True)
    add('newton scaled', scale=True, i_max=2, loose=True)
    add('newton hook', hook=True, i_max=2, loose=True)
    for k, nj in enumerate(([0, 1], [0], [1, 0, 0], [0, 0, 1])):
        add('newton jacobian %d' % k, newjac=nj, i_max=3, loose=True)
    for semi in (True, False):
        for n, m in ((1, 1), (2, 1), (3, 2))[:None if th or not semi else 2]:
            out.append(Case('semismooth %d %d %d' % (semi, n, m),
                            'h_semismooth', dict(semi=semi, n=n, m=m)))
    def addl(name, **kw):
        out.append(Case('semismooth ' + name, 'h_semi_loop', kw))
    addl('iterations 0', i_max=0)
    addl('iterations 1', i_max=1, limit=6)
    addl('iterations 2', i_max=2, limit=5)
    addl('iterations loose 2', i_max=2, ls_on=1e6)
    addl('iterations one unknown', i_max=2, smooth=False)
    addl('failures', i_max=1, fails=True, smooth=False)
    addl('failures loose', i_max=2, fails=True, ls_on=1e6, smooth=False)
    addl('complementarity', i_max=1, semi=True)
    return out


def warm():
    from symx import driver
    import sfepy.solvers.nls
    import sfepy.solvers.semismooth_newton
    h(driver.Ctx('conc'))
    h_semismooth(driver.Ctx('conc'), False)
    h_semi_loop(driver.Ctx('conc'))
