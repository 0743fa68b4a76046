"""Elastodynamics integrators: one step solves the equation of motion with the
documented update formulas, for any step sizes and their changes."""
import copy
import numpy as np
import fe

PROPERTY = 'C13'
BOUNDS = ('systems of 1-2 displacement DOFs and 0-1 additional DOFs; all '
          'states and loads in [-1, 1], step sizes in [1/50, 1/2], all '
          'coefficients of the systems and of the methods in the stated '
          'ranges; up to 3 (thorough: 4) step attempts with any decisions of '
          'the step controller; the nonlinear solver may return anything')
OUTSIDE = ('stability, rounding, the equations assembled by terms (other '
           'properties), mid-step loads of the generalized alpha method')


class Stop(Exception):
    pass


class Mtx(object):
    """A matrix with the operations the integrators use."""

    def __init__(self, a):
        self.a = a
        self.shape = np.shape(a)

    def __getitem__(self, ij):
        return Mtx(self.a[ij].copy())

    def __setitem__(self, ij, v):
        self.a[ij] = v.a if isinstance(v, Mtx) else v

    def __add__(self, o):
        return Mtx(self.a + o.a)

    def __iadd__(self, o):
        return Mtx(self.a + o.a)

    def __sub__(self, o):
        return Mtx(self.a - o.a)

    def __mul__(self, c):
        return Mtx(self.a * c)

    __rmul__ = __mul__
    __imul__ = __mul__

    def copy(self):
        return Mtx(self.a.copy())

    def eliminate_zeros(self):
        pass

    def tocsr(self):
        return self

    tocsc = tocsr


class Prob(object):
    """Linear or cubic system with a load depending on time."""

    def __init__(self, ctx, n, ne, nonlin, hastd):
        self.ctx = ctx
        self.n, self.ne = n, ne
        self.hastd = hastd
        if n == 1:
            def one(x, lo, hi):
                return ctx.real(x, (1, 1), lo, hi)
            self.M = one('M', 0.5, 2)
            self.C = one('C', 0, 1)
            self.K = one('K', 0.5, 2)
        else:
            self.M = ctx.const([[1.5, 0.25], [0.25, 1.0]])
            self.C = ctx.const([[0.5, -0.25], [-0.25, 0.75]])
            self.K = ctx.const([[2.0, -0.5], [-0.5, 1.25]])
        self.k3 = ctx.real('k3', None, 0.1, 1) if nonlin else 0
        self.nonlin = nonlin
        self.Kue = ctx.real('Kue', (n, ne), -1, 1)
        self.Keu = ctx.real('Keu', (ne, n), -1, 1)
        self.Kee = ctx.real('Kee', (ne, ne), 0.5, 1)
        self.cee = ctx.real('cee', (ne, ne), 0.5, 1) if hastd else 0
        self.f0 = ctx.real('f0', n, -1, 1)
        self.f1 = ctx.real('f1', n, -1, 1)
        self.g1 = ctx.real('g1', ne, -1, 1)
        self.time = None
        self.ts = None
        self.eprev = None
        self.dtnow = None

    def load(self, t):
        return self.f0 + self.f1 * t

    def forces(self, u, v, a, e, t, dt=None, ep=None):
        """Equation of motion and the other equations, independently."""
        r = dot(self.M, a) + dot(self.C, v) + dot(self.K, u) - self.load(t)
        if self.nonlin:
            r = r + self.k3 * u * u * u
        if not self.ne:
            return r, None
        r = r + dot(self.Kue, e)
        q = dot(self.Kee, e) + dot(self.Keu, u) - self.g1 * t
        if self.hastd:
            q = q + dot(self.cee, e - ep) / dt
        return r, q

    def fun(self, vec):
        n, ne = self.n, self.ne
        u, e = vec[:n], vec[n:n + ne]
        v, a = vec[n + ne:2 * n + ne], vec[2 * n + ne:]
        ru = dot(self.K, u) - self.load(self.time)
        if self.nonlin:
            ru = ru + self.k3 * u * u * u
        if ne:
            ru = ru + dot(self.Kue, e)
            re = dot(self.Kee, e) + dot(self.Keu, u) - self.g1 * self.time
            if self.hastd:
                re = re + dot(self.cee, e - self.eprev) / self.ts.dt
            return np.concatenate([ru, re, dot(self.C, v), dot(self.M, a)])
        return np.concatenate([ru, dot(self.C, v), dot(self.M, a)])

    def fun_grad(self, vec):
        if vec is None:
            # Only possible if the tangent matrix is constant.
            self.ctx.true(not self.nonlin, 'state needed for the matrix')
        n, ne = self.n, self.ne
        m = 3 * n + ne
        A = np.zeros((m, m), dtype=object if self.ctx.sym else float)
        if self.ctx.sym:
            A = fe.ctx_wrap(self.ctx, A)
        A[:n, :n] = self.K
        if self.nonlin:
            for k in range(n):
                A[k, k] = A[k, k] + 3 * self.k3 * vec[k] * vec[k]
        if ne:
            A[:n, n:n + ne] = self.Kue
            A[n:n + ne, :n] = self.Keu
            A[n:n + ne, n:n + ne] = self.Kee + (self.cee / self.ts.dt
                                                if self.hastd else 0)
        A[n + ne:2 * n + ne, n + ne:2 * n + ne] = self.C
        A[2 * n + ne:, 2 * n + ne:] = self.M
        return Mtx(A)


def dot(A, x):
    n, m = np.shape(A)
    out = []
    for i in range(n):
        s = 0
        for j in range(m):
            s = s + A[i, j] * x[j]
        out.append(s)
    return np.array(out, dtype=object if any(
        not isinstance(o, (int, float)) for o in out) else float)


class LS(object):
    """A linear solver keeping the factorized matrix until clear()."""

    def __init__(self, ctx, linear):
        self.ctx = ctx
        self.linear = linear
        self.kept = None
        self.log = []

    def copy(self):
        out = copy.copy(self)
        return out

    def clear(self):
        self.kept = None

    def use(self, A):
        if not self.linear:
            return
        if self.kept is None:
            self.kept = A.a
        self.ctx.eq(self.kept, A.a, 'factorized matrix is up to date')

    def __call__(self, rhs, mtx=None, **kwargs):
        self.use(mtx)
        x = self.ctx.real('ls%d' % len(self.log), len(rhs), -1, 1)
        self.log.append((rhs, mtx, x))
        return x

    def presolve(self, mtx):
        pass


class NLS(object):
    """Returns anything; the residual and matrix it was given are checked."""

    def __init__(self, ctx, prob, linear, limit):
        self.ctx = ctx
        self.prob = prob
        self.fun, self.fun_grad = prob.fun, prob.fun_grad
        self.linear = linear
        self.lin_solver = LS(ctx, linear)
        self.limit = limit
        self.calls = []
        self.status = None
        self.iter_hook = None
        self.context = None
        self.conf = None

    def copy(self):
        return copy.copy(self)

    def __call__(self, x0, **kwargs):
        k = len(self.calls)
        if k >= self.limit:
            raise Stop
        ctx = self.ctx
        x = ctx.real('x%d' % k, len(x0), -1, 1)
        r, J = ctx.derivative(self.fun, x)
        A = self.fun_grad('linear' if self.linear else x)
        self.lin_solver.use(A)
        ctx.eq(A.a, J, 'tangent matrix is the derivative of the residual')
        self.calls.append(dict(
            x=x, r=r, x0=x0, dt=self.prob.ts.dt,
            step=self.prob.ts.step, time=self.prob.ts.time,
            load=self.prob.time))
        return x


class Log(object):
    def __init__(self, prob):
        self.prob = prob
        self.pre = []
        self.post = []

    def prestep(self, ts, vec):
        # Materials, loads and conditions are updated here.
        self.prob.time = ts.time
        self.pre.append((ts.step, ts.time, vec))
        return vec

    def poststep(self, ts, vec):
        self.post.append((ts.step, ts.time, vec))
        p = self.prob
        if p.ne:
            p.eprev = vec[p.n:p.n + p.ne]
        return vec


def make_tsc(ctx, K, init):
    from sfepy.solvers.solvers import TimeStepController
    from sfepy.base.base import Struct

    class AnyTSC(TimeStepController):
        name = 'tsc.any'
        count = 0

        def get_initial_dt(self, ts, vec, **kwargs):
            return ctx.real('dt0', None, 0.02, 0.5) if init else ts.dt

        def __call__(self, ts, vec0, vec1, **kwargs):
            k = self.count
            self.count += 1
            log.append((ts.step, ts.time, ts.dt, vec0, vec1))
            rej = bool(ctx.bool('reject%d' % k))
            keep = bool(ctx.bool('keep%d' % k)) if not rej else False
            new = ts.dt if keep else ctx.real('dt%d' % (k + 1), None,
                                              0.02, 0.5)
            log[-1] += (rej, new)
            return new, Struct(u_err=None, v_err=None, emax=None,
                               result='reject' if rej else 'accept')
    log = []
    out = AnyTSC({})
    return out, log


def setup(ctx, kind, conf, n, ne, nonlin, hastd, tsc, limit, linear, nstep=4):
    import sfepy.solvers.ts_solvers as tss
    from sfepy.discrete.common.dof_info import DofInfo
    cls = dict(newmark=tss.NewmarkTS, alpha=tss.GeneralizedAlphaTS,
               bathe=tss.BatheTS, central=tss.CentralDifferenceTS,
               verlet=tss.VelocityVerletTS)[kind]
    prob = Prob(ctx, n, ne, nonlin, hastd)
    nls = NLS(ctx, prob, linear, limit)
    names = {'u': 'u', 'du': 'du', 'ddu': 'ddu', 'extra': set()}
    di = DofInfo('di')
    di.append_raw('u', n)
    if ne:
        di.append_raw('e', ne)
        names['extra'] = {'e'}
    di.append_raw('du', n)
    di.append_raw('ddu', n)
    conf = dict(conf, t0=0.0, t1=1.5, n_step=nstep, is_linear=linear,
                has_time_derivatives=hastd, var_names=names)
    s = cls(conf, nls=nls, tsc=tsc)
    s.set_dof_info(di)
    prob.ts = s.ts
    return s, prob, nls


def split(p, vec):
    n, ne = p.n, p.ne
    return (vec[:n], vec[n + ne:2 * n + ne], vec[2 * n + ne:],
            vec[n:n + ne])


def chk_step(ctx, kind, p, q0, q1, t0, dt, cs, pars):
    """One step from q0 at t0 to q1 at t0 + dt using the solutions cs."""
    u0, v0, a0, e0 = split(p, q0)
    u1, v1, a1, e1 = split(p, q1)
    n = p.n
    t1 = t0 + dt
    if kind == 'bathe':
        c1, c2 = cs
        uh = c1['x']
        vh = 4 * (uh - u0) / dt - v0
        ah = 4 * (vh - v0) / dt - a0
        r, _ = p.forces(uh, vh, ah, None, t0 + dt / 2)
        ctx.eq(c1['r'], r, 'equation of motion in the middle of the step')
        ctx.eq(u1, c2['x'], 'displacements')
        ctx.eq(v1, (u0 - 4 * uh + 3 * u1) / dt, 'velocities')
        ctx.eq(a1, (v0 - 4 * vh + 3 * v1) / dt, 'accelerations')
        r, _ = p.forces(u1, v1, a1, None, t1)
        ctx.eq(c2['r'], r, 'equation of motion')
        return
    c, = cs
    x, r = c['x'], c['r']
    ctx.eq(a1, x[:n], 'accelerations')
    if kind in ('central', 'verlet'):
        be, ga = 0, 0.5
    else:
        be, ga = pars['beta'], pars['gamma']
    ctx.eq(u1, u0 + dt * v0 + dt * dt * ((0.5 - be) * a0 + be * a1),
           'displacements')
    if kind != 'verlet' or True:
        ctx.eq(v1, v0 + dt * ((1 - ga) * a0 + ga * a1), 'velocities')
    if kind == 'alpha':
        am, af = pars['alpha_m'], pars['alpha_f']
        rr, _ = p.forces((1 - af) * u1 + af * u0, (1 - af) * v1 + af * v0,
                         (1 - am) * a1 + am * a0, None, c['load'])
    elif kind == 'verlet':
        rr, _ = p.forces(u1, v0 + 0.5 * dt * a0, a1, None, t1)
    else:
        rr, re = p.forces(u1, v1, a1, e1, t1, dt, e0)
    ctx.eq(r[:n], rr, 'equation of motion')
    if p.ne:
        ctx.eq(e1, x[n:], 'additional variables')
        ctx.eq(r[n:], re, 'additional equations')


def method(ctx, kind, defaults):
    """Parameters: configuration, expected values."""
    if kind == 'newmark':
        if defaults:
            return {}, dict(beta=0.25, gamma=0.5)
        q = dict(beta=ctx.real('beta', None, 0, 1),
                 gamma=ctx.real('gamma', None, 0, 1))
        return dict(q), q
    if kind == 'alpha':
        if defaults == 'rho':
            r = ctx.real('rho', None, 0, 1)
            am, af = (2 * r - 1) / (r + 1), r / (r + 1)
            return dict(rho_inf=r), dict(
                alpha_m=am, alpha_f=af, gamma=0.5 - am + af,
                beta=0.25 * (1 - am + af) * (1 - am + af))
        if defaults:
            am, af = 0.0, 1.0 / 3
            return {}, dict(alpha_m=am, alpha_f=af, gamma=0.5 - am + af,
                            beta=0.25 * (1 - am + af) * (1 - am + af))
        q = dict(beta=ctx.real('beta', None, 0, 1),
                 gamma=ctx.real('gamma', None, 0, 1),
                 alpha_m=ctx.real('alpha_m', None, -1, 0.5),
                 alpha_f=ctx.real('alpha_f', None, 0, 0.5))
        return dict(q), q
    return {}, {}


def h(ctx, kind, n=1, ne=0, nonlin=False, linear=False, hastd=False,
      defaults=False, adaptive=False, limit=3, init=False):
    conf, pars = method(ctx, kind, defaults)
    tsc, log = make_tsc(ctx, limit, init) if adaptive else (None, None)
    ns = 2 if kind == 'bathe' else 1
    s, p, nls = setup(ctx, kind, conf, n, ne, nonlin, hastd, tsc,
                      limit * ns, linear)
    lg = Log(p)
    if not adaptive:
        t0, t1 = 0.25, ctx.real('t1', None, 0.5, 1.0)
        s.ts.set_from_data(t0, t1, n_step=limit + 1, step=0)
    else:
        t0 = 0.0
        if not init:
            # Any initial step.
            s.ts.dt = ctx.real('dti', None, 0.02, 0.5)
    dti = s.ts.dt
    q0 = ctx.real('q', 3 * n + ne, -1, 1)
    p.eprev = q0[n:n + ne]
    out = None
    try:
        out = s(q0, prestep_fun=lg.prestep, poststep_fun=lg.poststep,
                init_fun=lambda ts, vec: vec)
    except Stop:
        pass
    # The initial acceleration.
    u, v, a, e = split(p, q0)
    rhs, mtx, a0 = nls.lin_solver.log[0]
    ctx.same(len(nls.lin_solver.log), 1, 'one initial solution')
    r, _ = p.forces(u, v, a * 0, e, t0, dti, e)
    ctx.eq(rhs, -r, 'initial acceleration: right-hand side')
    ctx.eq(mtx.a, p.M, 'initial acceleration: mass matrix')
    step, time, q = lg.post[0]
    ctx.same(step, 0, 'initial step')
    ctx.eq(time, t0, 'initial time')
    ctx.eq(q, np.concatenate([u, e, v, a0]), 'initial state')
    # Steps.
    t = t0
    i = 0
    acc = 1
    if not adaptive:
        dt = (t1 - t0) / limit
        ctx.same(len(lg.post), limit + 1, 'number of steps')
        for k in range(limit):
            step, time, q1 = lg.post[k + 1]
            ctx.same(step, k + 1, 'step')
            ctx.eq(time, t0 + dt * (k + 1), 'time')
            chk_step(ctx, kind, p, q, q1, t0 + dt * k, dt,
                     nls.calls[ns * k:ns * k + ns], pars)
            q = q1
        ctx.same(len(nls.calls), ns * limit, 'number of solutions')
        ctx.true(out is not None, 'stops at the final time')
        if out is not None:
            ctx.eq(out, q, 'returned state is the final one')
        return
    dt = ctx_dt0(nls, dti, init, ctx)
    step = 1
    done = False
    for k, (st, tm, ddt, vec0, vec1, rej, new) in enumerate(log):
        ctx.same(st, step, 'step')
        ctx.eq(ddt, dt, 'step size')
        ctx.eq(tm, t + dt, 'time')
        ctx.eq(vec0, q, 'starting from the last accepted state')
        chk_step(ctx, kind, p, q, vec1, t, dt,
                 nls.calls[ns * k:ns * k + ns], pars)
        if not rej:
            ctx.true(acc < len(lg.post), 'accepted step is passed on')
            if acc < len(lg.post):
                ctx.same(lg.post[acc][0], step, 'accepted step')
                ctx.eq(lg.post[acc][1], t + dt, 'accepted time')
                ctx.eq(lg.post[acc][2], vec1, 'accepted state')
            acc += 1
            q = vec1
            t = t + dt
            step += 1
            if bool(t >= 1.5):
                done = True
        dt = new
    ctx.same(acc, len(lg.post), 'only accepted steps are passed on')
    if done:
        ctx.true(out is not None, 'stops at the final time')
        if out is not None:
            ctx.eq(out, q, 'returned state is the final one')
    else:
        ctx.true(out is None, 'continues to the final time')


def ctx_dt0(nls, dti, init, ctx):
    if not init:
        return dti
    return nls.calls[0]['dt'] if nls.calls else dti


def h_rmm(ctx, n=2):
    """Explicit steps with the reciprocal mass matrix."""
    from sfepy.solvers.ls import RMMSolver
    import sfepy.solvers.ts_solvers as tss
    s, p, nls = setup(ctx, 'central', {}, n, 0, False, False, None, 9, True)
    zz = p.C * 0
    p.C = zz
    log = []

    class RMM(RMMSolver):
        name = 'ls.test'

        def __init__(self):
            pass

        def clear(self):
            pass

        def __call__(self, rhs, mtx=None, **kwargs):
            x = ctx.real('rls%d' % len(log), len(rhs), -1, 1)
            log.append((rhs, x))
            return x
    nls.lin_solver = RMM()
    lg = Log(p)
    t1 = ctx.real('t1', None, 0.5, 1.0)
    s.ts.set_from_data(0.25, t1, n_step=3, step=0)
    dt = (t1 - 0.25) / 2
    q0 = ctx.real('q', 3 * n, -1, 1)
    out = s(q0, prestep_fun=lg.prestep, poststep_fun=lg.poststep,
            init_fun=lambda ts, vec: vec)
    ctx.same(len(log), 3, 'number of solutions')
    q = lg.post[0][2]
    ctx.eq(q, np.concatenate([q0[:2 * n], log[0][1]]), 'initial state')
    for k in (1, 2):
        q1 = lg.post[k][2]
        u0, v0, a0, _ = split(p, q)
        u1, v1, a1, _ = split(p, q1)
        ctx.eq(a1, log[k][1], 'accelerations')
        ctx.eq(u1, u0 + dt * v0 + dt * dt * a0 / 2, 'displacements')
        ctx.eq(v1, v0 + dt * (a0 + a1) / 2, 'velocities')
        ctx.eq(log[k][0], p.load(0.25 + dt * k) - dot(p.K, u1), 'forces')
        q = q1
    ctx.eq(out, q, 'returned state is the final one')


TRANS = {
    'load': (['+ 1.0 dw_dot(m.rho, v, #ddu)', '+ 1.0 dw_div_grad(m.nu, v, #u)',
              '- 1.0 dw_volume_lvf(m.f, v)'],),
    'coefs': (['+ 3.0 dw_dot(m.rho, v, #ddu)', '- 0.5 dw_dot(v, #du)',
               '- 2.0 dw_div_grad(m.nu, v, #u)'],),
    'more': (['- 1.0 dw_dot(v, #ddu)', '+ 0.25 dw_dot(m.rho, v, #du)',
              '+ 1.0 dw_dot(m.nu, v, #ddu)', '+ 4.0 dw_convect(v, #u)',
              '+ 1.5 dw_surface_ltr(m.f, v)', '+ 1.0 dw_div_grad(v, #u)'],),
    'mixed': (['+ 1.0 dw_dot(m.rho, v, #ddu)', '+ 1.0 dw_dot(v, #u)',
               '- 2.0 dw_stokes(v, #p)'],
              ['+ 1.0 dw_stokes(#u, q)', '+ 0.5 dw_laplace(m.nu, q, #p)',
               '- 1.0 dw_integrate(m.rho, q)']),
    'bilinear': (['- 2.0 dw_dot(m.rho, v, #ddu)', '+ 1.0 dw_dot(v, #du)',
                  '+ 1.0 dw_div_grad(v, #u)'],
                 ['+ 1.0 dw_laplace(q, #p)',
                  '+ 0.5 dw_convect_v_grad_s(q, #u, #p)']),
}


def h_transform(ctx, kind):
    """The transformed equations: the same sums of terms, split by the time
    derivatives."""
    from sfepy.discrete import (FieldVariable, Material, Materials, Integral,
                                Integrals, Problem)
    from sfepy.discrete.variables import Variables
    from sfepy.discrete.equations import Equations
    from sfepy.discrete.conditions import Conditions
    from sfepy.discrete.fem import Field
    from sfepy.solvers.ts_solvers import transform_equations_ed
    from sfepy.terms import Term
    with ctx.concrete():
        domain = fe.make_domain('2_3')
        om = domain.regions['Omega']
        fu = Field.from_args('fu', np.float64, 2, om, approx_order=1)
        fp = Field.from_args('fp', np.float64, 1, om, approx_order=1)
    eqsd = TRANS[kind]
    two = len(eqsd) > 1
    vs = [FieldVariable('u', 'unknown', fu, order=0),
          FieldVariable('v', 'test', fu, primary_var_name='u')]
    if two:
        vs += [FieldVariable('p', 'unknown', fp, order=1),
               FieldVariable('q', 'test', fp, primary_var_name='p')]
    mat = Material('m', values={'rho': 2.0, 'nu': 0.75, 'f': np.array(
        [[0.5], [0.25]])})
    integral = Integral('i', order=2)
    conf = {}
    for k, ts in enumerate(eqsd):
        out = ''
        for t in ts:
            sg, c, rest = t.split(' ', 2)
            name, args = rest.split('(', 1)
            rn = 'Gamma' if 'surface' in name else 'Omega'
            out += ' %s %s * %s.i.%s(%s' % (sg, c, name, rn,
                                            args.replace('#', ''))
        conf['e%d' % k] = out + ' = 0'
    mats = Materials([mat])
    eqs = Equations.from_conf(conf, Variables(vs), domain.regions, mats,
                              Integrals([integral]), allow_derivatives=True)
    new, names = transform_equations_ed(eqs, mats)
    ctx.same({k: v for k, v in names.items() if k != 'extra'},
             {'u': 'u', 'du': 'du', 'ddu': 'ddu'}, 'names of variables')
    pb = Problem('p', equations=new)
    pb.set_bcs(ebcs=Conditions([]), epbcs=Conditions([]), lcbcs=Conditions([]))
    pb.time_update()
    pb.equations.init_state()
    pb.update_materials()
    V = pb.equations.variables
    x = ctx.real('x', V.di.n_dof_total, lo=-1, hi=1)
    ix = V.di.indx
    ctx.same([ix[k].start for k in ('u', 'p', 'du', 'ddu')
              if k != 'p' or two],
             [0, 8, 12, 20] if two else [0, 8, 16], 'order of DOFs')
    res = pb.get_evaluator().eval_residual(x)
    # Independently: term by term.
    ref = {}
    for k, ts in enumerate(eqsd):
        test = 'vq'[k]
        for t in ts:
            sg, c, rest = t.split(' ', 2)
            name, args = rest.split('(', 1)
            args = [a.strip() for a in args.rstrip(')').split(',')]
            kw, sargs, der = {'m': mat}, [], ''
            for a in args:
                if a.startswith('#'):
                    a = a[1:]
                    der = a[:-1]
                    b = a[-1]
                    f = fp if b == 'p' else fu
                    var = FieldVariable(b, 'unknown', f)
                    var.set_data(x[ix[a]])
                    kw[b] = var
                    sargs.append(b)
                elif a in ('v', 'q'):
                    kw[a] = FieldVariable(a, 'test', fp if a == 'q' else fu,
                                          primary_var_name='up'[a == 'q'])
                    sargs.append(a)
                else:
                    sargs.append(a)
            rn = 'Gamma' if 'surface' in name else 'Omega'
            tm = Term.new('%s(%s)' % (name, ', '.join(sargs)), integral,
                          domain.regions[rn],
                          **{a.split('.')[0]: kw[a.split('.')[0]]
                             for a in sargs})
            tm.setup()
            vals, iels, st = tm.evaluate(mode='weak', ret_status=True)
            f = fp if test == 'q' else fu
            nc = 1 if test == 'q' else 2
            econn = np.asarray(f.get_econn(
                tm.get_dof_conn_type(test), tm.region))
            r = ref.setdefault((der, 'up'[k]),
                               [0] * (f.n_nod * nc))
            cc = float(sg + c)
            for ie, iel in enumerate(np.asarray(iels)):
                n = econn.shape[1]
                for ic in range(nc):
                    for j in range(n):
                        d = econn[iel, j] * nc + ic
                        r[d] = r[d] + cc * vals[ie, 0, ic * n + j, 0]
    for key in ('u', 'p', 'du', 'ddu'):
        if key == 'p' and not two:
            continue
        r = ref.get((key[:-1], key[-1]))
        a = res[ix[key]]
        ctx.eq(a, r if r is not None else np.zeros(len(a)),
               'residual block of %s' % key)


def cases(tier):
    from symx.runner import Case
    th = tier == 'thorough'
    out = []
    L = 4 if th else 3

    def add(name, **kw):
        out.append(Case(name, 'h', kw))
    for kind in ('newmark', 'alpha', 'bathe', 'central', 'verlet'):
        for lin, nonlin in ((True, False), (False, False), (False, True)):
            tag = '%s %s%s' % (kind, 'linear' if lin else 'general',
                               ' cubic' if nonlin else '')
            if kind == 'verlet' and False:
                continue
            add(tag, kind=kind, linear=lin, nonlin=nonlin, limit=2)
            add(tag + ' 2', kind=kind, n=2, linear=lin, nonlin=nonlin,
                limit=2)
            add(tag + ' defaults', kind=kind, linear=lin, nonlin=nonlin,
                limit=2, defaults=True)
            add(tag + ' adaptive', kind=kind, n=1, linear=lin, nonlin=nonlin,
                adaptive=True, limit=L if lin else 2, defaults=True)
            add(tag + ' adaptive init', kind=kind, n=1, linear=lin,
                nonlin=nonlin, adaptive=True, limit=2, init=True,
                defaults=True)
    add('alpha rho', kind='alpha', limit=1, defaults='rho')
    for lin, nonlin in ((True, False), (False, False), (False, True)):
        for td in (False, True):
            tag = 'extra %s%s%s' % ('linear' if lin else 'general',
                                    ' cubic' if nonlin else '',
                                    ' td' if td else '')
            for n in (1, 2):
                add('%s %d' % (tag, n), kind='newmark', n=n, ne=1,
                    linear=lin, nonlin=nonlin, hastd=td, limit=2)
                add('%s %d adaptive' % (tag, n), kind='newmark', n=n, ne=1,
                    linear=lin, nonlin=nonlin, hastd=td,
                    limit=L if lin and n == 1 else 2,
                    defaults=True, adaptive=True)
                add('%s %d adaptive init' % (tag, n), kind='newmark', n=n,
                    ne=1, linear=lin, nonlin=nonlin, hastd=td, limit=2,
                    defaults=True, adaptive=True, init=True)
    for n in (1, 2):
        out.append(Case('rmm %d' % n, 'h_rmm', dict(n=n)))
    for kind in TRANS:
        out.append(Case('transform %s' % kind, 'h_transform',
                        dict(kind=kind)))
    return out


def warm():
    from symx import driver
    import sfepy.solvers.ts_solvers
    h(driver.Ctx('conc'), 'newmark', n=2, ne=1)
    fe.warm(('2_3',))
    for kind in TRANS:
        h_transform(driver.Ctx('conc'), kind)
