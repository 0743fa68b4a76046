"""Time stepping: visited times, adaptive step rules, step controllers."""
import numpy as np
import fe

PROPERTY = 'C12'
BOUNDS = ('initial and final times in [-2, 5] with t1 - t0 >= 1/10, up to 7 '
          'time steps; controllers: all errors in [1/1000, 50], all step '
          'sizes and coefficients in the stated ranges, up to 5 consecutive '
          'decisions with any outcomes of the nonlinear solver')
OUTSIDE = ('rounding in the accumulated times, the DG stage solvers, '
           'user-defined adaptivity functions')


def times_of(ctx, mint=0.1):
    t0 = ctx.real('t0', None, -2, 2)
    t1 = ctx.real('t1', None, -2, 5)
    if ctx.sym:
        ctx.assume(t1 - t0 >= mint)
    return t0, t1


def h_fixed(ctx, n):
    from sfepy.solvers.ts import TimeStepper
    t0, t1 = times_of(ctx)
    ts = TimeStepper(t0, t1, n_step=n)
    ctx.true(ts.n_step == n, 'number of steps')
    seq = [(s, t, ts.step, ts.time, ts.nt, ts.dt) for s, t in ts]
    ctx.same([s[0] for s in seq], list(range(n)), 'steps')
    ctx.same([s[2] for s in seq], list(range(n)), 'step attribute')
    for k, (s, t, _, tt, nt, dt) in enumerate(seq):
        q = (t1 - t0) * k / (n - 1) if n > 1 else 0
        ctx.eq(t, t0 + q, 'time %d' % k)
        ctx.eq(tt, t, 'time attribute %d' % k)
        ctx.eq(nt * (t1 - t0), q, 'normalized time %d' % k)
        if n > 1:
            ctx.eq(dt * (n - 1), t1 - t0, 'time step')
    if n > 1:
        ctx.true(bool(seq[-1][1] == t1), 'final time exactly')
        ctx.true(bool(seq[-1][4] >= 1), 'normalized time at the end')
    for k in range(n):
        s2 = [(s, t) for s, t in ts.iter_from(k)]
        ctx.same([s for s, _ in s2], list(range(k, n)), 'steps from %d' % k)
        for (_, a), b in zip(s2, seq[k:]):
            ctx.eq(a, b[1], 'times from %d' % k)
    # State, copies.
    for k in range(n):
        ts.set_step(k)
        st = ts.get_state()
        t2 = TimeStepper(t0, t1, n_step=n)
        t2.set_state(**st)
        t3 = TimeStepper(t0 - 1, t1 + 2, n_step=n + 1)
        t3.set_from_ts(ts)
        for o in (t2, t3):
            ctx.same(o.step, k, 'restored step')
            ctx.eq(o.time, ts.time, 'restored time')
            ctx.eq(o.nt, ts.nt, 'restored normalized time')
            ctx.eq(o.dt, ts.dt, 'restored time step')
            ctx.same(o.n_step, n, 'restored number of steps')
            ctx.true(bool(o == ts), 'equality')
            o.advance()
            ts.set_step(k)
            ts.advance()
            ctx.eq(o.time, ts.time, 'continued time')
            ts.set_step(k)
    # Sub-steps.
    sub = ctx.real('sub', None, -1, 1)
    ts.set_step(n - 1)
    tt = ts.time
    ts.set_substep_time(sub)
    ctx.eq(ts.time, tt + sub, 'sub-step time')
    ts.restore_step_time()
    ctx.eq(ts.time, tt, 'restored step time')
    ts.restore_step_time()
    ctx.eq(ts.time, tt, 'restored step time, repeated')
    # Steps from the end.
    for k in range(1, n + 1):
        ts.set_step(-k)
        ctx.same(ts.step, n - k, 'negative step')
        ctx.eq(ts.time, seq[n - k][1], 'time of negative step')
    for k in (n, n + 3, -n - 1):
        ctx.raises(ValueError, lambda: ts.set_step(k), 'step out of range')


def h_fixed_dt(ctx, n):
    """The time step given: the nearest number of equal steps."""
    from sfepy.solvers.ts import TimeStepper, VariableTimeStepper
    t0, t1 = times_of(ctx, 0.5)
    dt = ctx.real('dt', None, 0.01, 10)
    r = (t1 - t0) / dt
    eps = 1e-6
    if ctx.sym:
        ctx.assume(r >= n - 1.5 + eps)
        ctx.assume(r <= n - 0.5 - eps)
    ts = TimeStepper(t0, t1, dt=dt)
    ctx.true(ts.n_step == n, 'number of steps')
    if n > 1:
        ctx.eq(ts.dt * (n - 1), t1 - t0, 'time step')
        ctx.eq(ts.times[-1], t1, 'final time')
    ctx.eq(ts.times[0], t0, 'initial time')
    vts = VariableTimeStepper(t0, t1, dt=dt)
    ctx.same(vts.n_step0, n, 'initial number of steps')
    ctx.eq(vts.dt * max(n - 1, 1), t1 - t0, 'initial time step')
    ctx.eq(vts.get_default_time_step(), vts.dt, 'default time step')
    # n_step has precedence.
    ts = TimeStepper(t0, t1, dt=dt, n_step=n + 2)
    ctx.same(ts.n_step, n + 2, 'precedence of the number of steps')
    # Initial step from the normalized time.
    nt = ctx.real('nt', None, 0, 1)
    ts.set_step(None, nt=nt)
    ctx.true(abs(ts.step - nt * (n + 1)) <= 0.5, 'step from normalized time')
    ctx.eq(ts.time, ts.times[ts.step], 'time from normalized time')


def h_variable(ctx, K, via):
    """Any sequence of step sizes."""
    from sfepy.solvers.ts import VariableTimeStepper
    t0, t1 = times_of(ctx, 0.5)
    n0 = 4
    ts = VariableTimeStepper(t0, t1, n_step=n0)
    dt0 = (t1 - t0) / (n0 - 1)
    cur, dt, times, nsteps = t0, dt0, [t0], 0
    k = 0
    it = iter(ts) if via == 'iter' else ts.iter_from(0)
    for step, time in it:
        ctx.same(step, k, 'step')
        ctx.eq(time, cur, 'time')
        ctx.eq(ts.time, cur, 'time attribute')
        ctx.eq(ts.nt * (t1 - t0), cur - t0, 'normalized time')
        ctx.same(len(ts.times), k + 1, 'number of times')
        ctx.same(ts.n_step, k + 1, 'number of steps')
        ctx.eq(np.asarray(list(ts.times)), np.asarray(times), 'times')
        ctx.eq(ts.dt, dt, 'time step')
        if k > 0:
            # Redo the current step with another size.
            if ctx.bool('redo%d' % k):
                dt = ctx.real('rdt%d' % k, None, 0.01, 1)
                ts.set_time_step(dt, update_time=True)
                cur = times[-2] + dt
                times[-1] = cur
                ctx.eq(ts.time, cur, 'changed time')
                ctx.eq(ts.times[-1], cur, 'changed stored time')
                ctx.eq(ts.nt * (t1 - t0), cur - t0, 'changed normalized time')
        if k >= K:
            break
        dt = ctx.real('dt%d' % k, None, 0.01, 1)
        ts.set_time_step(dt)
        ctx.eq(ts.time, cur, 'time with a new step')
        # The iteration ends at the final time.
        done = cur - t0 >= t1 - t0
        if done:
            k += 1
            try:
                next(it)
                ctx.true(False, 'stops at the final time')
            except StopIteration:
                ctx.true(True, 'stops at the final time')
            break
        cur = cur + dt
        times.append(cur)
        k += 1
    # Saved state.
    st = dict(ts.get_state())
    t2 = VariableTimeStepper(t0, t1, n_step=n0)
    t2.set_state(**st)
    ctx.same(t2.step, ts.step, 'restored step')
    ctx.eq(t2.time, ts.time, 'restored time')
    ctx.eq(t2.nt, ts.nt, 'restored normalized time')
    ctx.eq(t2.dt, ts.dt, 'restored time step')
    t2.times = list(t2.times)
    t2.advance()
    ctx.eq(t2.time, ts.time + ts.dt, 'continued time')
    ctx.same(t2.step, ts.step + 1, 'continued step')
    ctx.same(t2.n_step, ts.step + 2, 'continued number of steps')
    # Reset.
    ts.set_step(0)
    ctx.same([ts.step, ts.n_step, len(ts.times)], [0, 1, 1], 'reset')
    ctx.eq(ts.time, t0, 'reset time')
    ctx.raises(ValueError, lambda: ts.set_step(3), 'cannot jump')


# --- adaptive time stepping by the status of the nonlinear solver

class Stop(Exception):
    pass


class FakeNLS(object):
    """Any outcome at each call."""

    def __init__(self, ctx, K, sym_iter):
        from sfepy.base.base import IndexedStruct
        self.ctx = ctx
        self.K = K
        self.calls = []
        self.status = IndexedStruct()
        self.sym_iter = sym_iter
        self.ts = None
        self.fun = lambda vec: vec * 0.5

    def __call__(self, vec, status=None):
        k = len(self.calls)
        if k >= self.K:
            raise Stop
        c = self.ctx
        if self.sym_iter is None:
            ok, few = True, False
        else:
            ok = bool(c.bool('ok%d' % k))
            few = bool(c.bool('few%d' % k)) if ok else False
        self.status.condition = 0 if ok else 1
        self.status.n_iter = 2 if few else 7
        out = c.real('x%d' % k, 1, -1, 1)
        self.calls.append((self.ts.step, self.ts.time, self.ts.dt, vec, out,
                           ok, few))
        return out


def setup_adaptive(ctx, K, quasi=False):
    from sfepy.solvers.ts_solvers import AdaptiveTimeSteppingSolver
    rf = ctx.real('red_factor', None, 0.1, 0.9)
    rm = ctx.real('red_max', None, 0.001, 0.5)
    inc = ctx.real('inc_factor', None, 1.0, 3.0)
    conf = dict(t0=0.0, t1=1.0, n_step=3, dt_red_factor=0.2, dt_red_max=1e-3,
                dt_inc_factor=1.25, dt_inc_on_iter=4, dt_inc_wait=1,
                quasistatic=quasi)
    nls = FakeNLS(ctx, K, True)
    s = AdaptiveTimeSteppingSolver(conf, nls=nls)
    a = s.adt
    ctx.eq(np.array([a.red_factor, a.red_max, a.inc_factor, a.inc_on_iter,
                     a.inc_wait, a.red, a.wait]),
           np.array([0.2, 1e-3, 1.25, 4, 1, 1, 0]), 'adaptivity parameters')
    ctx.eq(a.dt0, 0.5, 'initial time step')
    # Any parameters.
    a.red_factor, a.red_max, a.inc_factor = rf, rm, inc
    nls.ts = s.ts
    return s, nls, rf, rm, inc


def h_adaptive(ctx, K, quasi=False):
    s, nls, rf, rm, inc = setup_adaptive(ctx, K, quasi)
    pre, post = [], []

    def prestep(ts, vec):
        pre.append((ts.step, ts.time, vec))
        return vec

    def poststep(ts, vec):
        post.append((ts.step, ts.time, ts.dt, vec, len(nls.calls)))
        return vec

    v0 = ctx.real('v0', 1, -1, 1)
    out = None
    try:
        out = s(v0, prestep_fun=prestep, poststep_fun=poststep)
    except Stop:
        pass
    # An independent model of the documented algorithm.
    dt0 = 0.5
    red, wait = 1.0, 0
    t, x = 0.0, v0
    dt = dt0
    calls = list(nls.calls)
    kpost = 0
    kpre = 0

    def chk_pre(step, time, vec, k):
        ctx.same(pre[k][0], step, 'step of preparation')
        ctx.eq(pre[k][1], time, 'time of preparation')
        ctx.eq(pre[k][2], vec, 'state of preparation')

    def chk_post(step, time, vec, k):
        ctx.same(post[k][0], step, 'accepted step')
        ctx.eq(post[k][1], time, 'accepted time')
        ctx.eq(post[k][3], vec, 'accepted state')

    i = 0
    chk_pre(0, t, x, 0)
    kpre = 1
    if quasi:
        if not calls:
            return
        ctx.eq(calls[0][1], 0.0, 'time of the initial solve')
        ctx.eq(calls[0][3], v0, 'initial guess')
        x = calls[0][4]
        i = 1
    chk_post(0, t, x, 0)
    kpost = 1
    step = 1
    finished = False
    while i < len(calls):
        tn = t + dt
        while i < len(calls):
            c = calls[i]
            i += 1
            chk_pre(step, tn, x, kpre)
            kpre += 1
            ctx.same(c[0], step, 'step index')
            ctx.eq(c[1], tn, 'time of the solution')
            ctx.eq(c[2], dt, 'time step size')
            ctx.eq(c[3], x, 'starting from the last accepted state')
            ok, few = c[5:]
            if ok:
                if few:
                    wait += 1
                    if wait > 1:
                        if bool(red < 1):
                            red = red * inc
                            dt = dt0 * red
                        wait = 0
                else:
                    wait = 0
                acc = True
            else:
                red = red * rf
                acc = bool(red < rm)
                if not acc:
                    dt = dt0 * red
                    tn = t + dt
                    wait = 0
            if acc:
                break
        else:
            break
        t, x = tn, c[4]
        chk_post(step, t, x, kpost)
        kpost += 1
        if bool(t >= 1):
            finished = True
            break
        step += 1
    ctx.same(kpost, len(post), 'number of accepted steps')
    ctx.same(i, len(calls), 'number of solutions')
    if finished:
        ctx.true(out is not None, 'stops at the final time')
        if out is not None:
            ctx.eq(out, x, 'returned state')
    else:
        ctx.true(out is None, 'continues to the final time')


def h_simple(ctx, n, quasi, restart=None):
    from sfepy.solvers.ts_solvers import SimpleTimeSteppingSolver
    conf = dict(t0=0.0, t1=2.0, n_step=n, quasistatic=quasi)
    t0, t1 = times_of(ctx, 0.5)
    nls = FakeNLS(ctx, 20, None)
    s = SimpleTimeSteppingSolver(conf, nls=nls)
    s.ts.set_from_data(t0, t1, n_step=n, step=0)
    nls.ts = s.ts
    ev = []

    def init(ts, vec):
        ev.append(('init', ts.step, ts.time, vec))
        if restart is not None:
            ts.set_step(restart)
            ts.advance()
            return vec + 1
        return vec

    def prestep(ts, vec):
        ev.append(('pre', ts.step, ts.time, vec))
        return vec * 2

    def poststep(ts, vec):
        ev.append(('post', ts.step, ts.time, vec))
        return vec * 3

    v0 = ctx.real('v0', 1, -1, 1)
    out = s(v0, init_fun=init, prestep_fun=prestep, poststep_fun=poststep)

    def time(k):
        return t0 + (t1 - t0) * k / (n - 1)

    exp = [('init', 0, t0, v0)]
    x = v0
    first = 0
    if restart is not None:
        x = v0 + 1
        first = restart + 1
    i = 0
    for k in range(first, n):
        exp.append(('pre', k, time(k), x))
        if k == 0 and not quasi:
            y = x * 2
        else:
            c = nls.calls[i]
            i += 1
            ctx.same(c[0], k, 'step of solution')
            ctx.eq(c[1], time(k), 'time of solution')
            ctx.eq(c[3], x * 2, 'initial guess')
            y = c[4]
        exp.append(('post', k, time(k), y))
        x = y * 3
    ctx.same(i, len(nls.calls), 'number of solutions')
    ctx.same([e[:2] for e in ev], [e[:2] for e in exp], 'order of calls')
    for a, b in zip(ev, exp):
        ctx.eq(a[2], b[2], '%s %d: time' % a[:2])
        ctx.eq(a[3], b[3], '%s %d: state' % a[:2])
    ctx.eq(out, x, 'returned state')


def h_stationary(ctx):
    from sfepy.solvers.ts_solvers import StationarySolver
    nls = FakeNLS(ctx, 5, None)
    s = StationarySolver({}, nls=nls)
    nls.ts = s.ts
    v0 = ctx.real('v0', 2, -1, 1)
    out = s(v0, init_fun=lambda ts, v: v + 1, prestep_fun=lambda ts, v: v * 2,
            poststep_fun=lambda ts, v: v * 3)
    ctx.same(len(nls.calls), 1, 'single solution')
    ctx.eq(nls.calls[0][3], (v0 + 1) * 2, 'initial guess')
    ctx.eq(out, nls.calls[0][4] * 3, 'returned state')


# --- controllers

class TS(object):
    def __init__(self, dt, time=0.0, t0=0.0, t1=1.0):
        self.dt = dt
        self.time = time
        self.t0 = t0
        self.t1 = t1


def unpacker(nx):
    def unpack(vec, mode='full'):
        return tuple(vec)
    unpack.n_arg = nx
    return unpack


def ctl(ctx, cls, order, extra=None):
    from sfepy.solvers import ts_controllers as tc
    kw = dict(eps_r=[1e-2, 1e-2], eps_a=[1e-4, 1e-4], error_order=order)
    kw.update(extra or {})
    base = getattr(tc, cls)
    errs = []

    class C(base):
        @staticmethod
        def get_scaled_errors(dt, vec0, vec1, eps_as, eps_rs, unpack):
            return errs[-1]
    C.__name__ = cls
    out = C(kw)
    return out, errs


def spow(ctx, x, p):
    """x**p for p a multiple of 1/2."""
    from fractions import Fraction as Fr
    p = Fr(p).limit_denominator(2)
    if p.denominator == 1:
        y = 1
        for _ in range(abs(p.numerator)):
            y = y * x
        return y if p >= 0 else 1 / y
    return x ** float(p)


def h_control(ctx, cls, order, K, pid=(0, 1, 0)):
    c, errs = ctl(ctx, cls, order,
                  dict(pcoef=pid[0], icoef=pid[1], dcoef=pid[2])
                  if 'PID' in cls else
                  dict(fred=0.75, inc_wait=1, min_finc=1.5)
                  if 'Linear' in cls else None)
    fmin = ctx.real('fmin', None, 0.05, 0.9)
    fmax = ctx.real('fmax', None, 1.0, 5.0)
    fs = ctx.real('fsafety', None, 0.3, 1.0)
    if 'Basic' not in cls:
        fmin, fmax, fs = 0.25, 2.5, 0.75
    c.conf.fmin, c.conf.fmax, c.conf.fsafety = fmin, fmax, fs
    if 'Linear' in cls:
        fred = ctx.real('fred', None, 0.2, 1.0)
        minf = ctx.real('min_finc', None, 1.0, 4.0)
        c.conf.fred, c.conf.min_finc = fred, minf
    dt = ctx.real('dt', None, 0.001, 10)
    up = unpacker(3)
    z = (0.0, 0.0, 0.0)
    count = 0
    h = [1, 1]
    for k in range(K):
        ue = ctx.real('ue%d' % k, None, 0.001, 50)
        ve = ctx.real('ve%d' % k, None, 0.001, 50)
        if 'Basic' not in cls:
            ve = ue * 0.5
        errs.append((ue, ve))
        ts = TS(dt)
        new, st = c(ts, z, z, up)
        em = ue if bool(ue >= ve) else ve
        ctx.eq(st.emax, em, 'error')
        ctx.eq(st.u_err, ue, 'displacement error')
        ctx.eq(st.v_err, ve, 'velocity error')
        ctx.eq(ts.dt, dt, 'time step not changed by the controller')
        acc = bool(em <= 1)
        ctx.true(st.result == ('accept' if acc else 'reject'),
                 'accepted if and only if the error is at most 1')
        if 'PID' in cls:
            p, i, d = pid
            f = fs * spow(ctx, em, -(p + i + d) / order) \
                * spow(ctx, h[0], (p + 2 * d) / order) \
                * spow(ctx, h[1], -d / order)
            h = [em, h[0]]
            if bool(f < fmin):
                f = fmin
            if bool(f > fmax):
                f = fmax
        else:
            f = fs / spow(ctx, em, 1.0 / order)
            if acc and bool(f > fmax):
                f = fmax
            if not acc and bool(f < fmin):
                f = fmin
        exp = dt * f
        if 'Linear' in cls:
            if not acc:
                count = 0
                exp = exp * fred
            elif count >= 1:
                if bool(f >= minf):
                    count = 0
                else:
                    exp = dt
            else:
                count += 1
                exp = dt
        ctx.eq(new, exp, 'new time step %d' % k)
        if not acc and 'PID' not in cls:
            ctx.true(new <= dt, 'rejected step is not increased')
        ctx.true(new > 0, 'positive step')
        if k + 1 < K:
            dt = ctx.real('ndt%d' % k, None, 0.001, 10)


def h_zero_error(ctx, cls, pid=(0, 1, 0)):
    """A system at rest: errors exactly zero."""
    c, errs = ctl(ctx, cls, 2, dict(pcoef=pid[0], icoef=pid[1], dcoef=pid[2])
                  if 'PID' in cls else
                  dict(inc_wait=0) if 'Linear' in cls else None)
    dt = ctx.real('dt', None, 0.001, 10)
    up = unpacker(3)
    for k in range(4):
        errs.append((np.float64(0.0), np.float64(0.0)))
        with np.errstate(all='ignore'):
            new, st = c(TS(dt), (0.0,) * 3, (0.0,) * 3, up)
        ctx.true(st.result == 'accept', 'accepted')
        ctx.eq(new, dt * c.conf.fmax, 'increased by the maximum factor')


def h_errors(ctx, n, extra):
    """The error estimate: difference to a backward Euler step."""
    from sfepy.solvers.ts_controllers import ElastodynamicsBasicTSC as C
    dt = ctx.real('dt', None, 0.01, 1)
    s = [ctx.real(x, n, -1, 1) for x in ('u0', 'v0', 'a0', 'u1', 'v1', 'a1')]
    u0, v0, a0, u1, v1, a1 = s
    ea = (0.5, 0.25)
    er = (0.125, 0.0625)
    if extra:
        e = ctx.real('e', 1, -1, 1)
        q0, q1 = (u0, e, v0, a0), (u1, e * 2, v1, a1)
    else:
        q0, q1 = (u0, v0, a0), (u1, v1, a1)
    ue, ve = C.get_scaled_errors(dt, q0, q1, ea, er,
                                 unpacker(4 if extra else 3))
    for err, ter, a, r, lab in (
            (ue, u1 - u0 - dt * v1, ea[0], er[0], 'displacements'),
            (ve, v1 - v0 - dt * a1, ea[1], er[1], 'velocities')):
        w = 0
        for k in range(n):
            x = abs(ter[k])
            y = x / (r * x + a)
            w = w + y * y
        ctx.eq(err * err, w / n, lab)
        ctx.true(err >= 0, lab + ': nonnegative')


def h_initial(ctx, guess):
    from sfepy.solvers import ts_controllers as tc
    c = tc.ElastodynamicsBasicTSC(dict(eps_r=[0.5, 0.75], eps_a=[0.25, 0.125],
                                       error_order=1, guess_dt0=guess))
    dt = ctx.real('dt', None, 0.01, 1)
    s = [ctx.real(x, 1, 0.01, 1) for x in 'uva']
    new = c.get_initial_dt(TS(dt), tuple(s), unpack=unpacker(3))
    if not guess:
        ctx.eq(new, dt, 'given time step')
        return
    d = [abs(x[0]) / (0.5 * abs(x[0]) + 0.125) for x in s]
    h0 = 0.01 * d[0] / d[1]
    m = d[1] if bool(d[1] >= d[2]) else d[2]
    h1 = 0.01 / m
    a = 100 * h0
    ctx.eq(new, a if bool(a <= h1) else h1, 'guessed time step')


def h_times_seq(ctx, n, beyond):
    """The sequence of given times is visited."""
    from sfepy.solvers.ts_controllers import TimesSequenceTSC
    from sfepy.solvers.ts import VariableTimeStepper
    tt = []
    t = 0.0
    for k in range(n):
        t = t + ctx.real('d%d' % k, None, 0.05, 0.4)
        tt.append(t)
    t1 = ctx.real('t1', None, 0.05, 3)
    if beyond:
        ctx.assume(t1 < tt[-1])
    else:
        ctx.assume(t1 > tt[-1])
    c = TimesSequenceTSC({'times': tt})
    ts = VariableTimeStepper(0.0, t1, n_step=3)
    ts.advance()
    ts.set_time_step(c.get_initial_dt(ts, None), update_time=True)
    seen = []
    for _ in range(n + 3):
        seen.append(ts.time)
        new, st = c(ts, None, None)
        ctx.true(st.result == 'accept', 'accepted')
        if bool(ts.nt >= 1):
            break
        ts.set_time_step(new)
        ts.advance()
    exp = []
    for t in tt:
        exp.append(t)
        if bool(t >= t1):
            break
    else:
        exp.append(t1)
    ctx.same(len(seen), len(exp), 'number of times')
    for a, b in zip(seen, exp):
        ctx.eq(a, b, 'visited time')


def cases(tier):
    from symx.runner import Case
    th = tier == 'thorough'
    out = []
    for n in range(1, 8 if th else 6):
        out.append(Case('fixed %d' % n, 'h_fixed', dict(n=n)))
        out.append(Case('fixed dt %d' % n, 'h_fixed_dt', dict(n=n)))
    for via in ('iter', 'from'):
        out.append(Case('variable %s' % via, 'h_variable',
                        dict(K=6 if th else 4, via=via)))
    for q in (False, True):
        out.append(Case('adaptive %d' % q, 'h_adaptive',
                        dict(K=7 if th else 5, quasi=q)))
        for n in (2, 4):
            out.append(Case('simple %d %d' % (q, n), 'h_simple',
                            dict(n=n, quasi=q)))
            out.append(Case('simple restart %d %d' % (q, n), 'h_simple',
                            dict(n=n, quasi=q, restart=n - 2)))
    out.append(Case('stationary', 'h_stationary', {}))
    for order in (1, 2):
        for cls in ('ElastodynamicsBasicTSC', 'ElastodynamicsLinearTSC'):
            out.append(Case('%s %d' % (cls, order), 'h_control',
                            dict(cls=cls, order=order,
                                 K=(4 if th else 3) if 'Linear' in cls
                                 else 1)))
    for order, pid in ((1, (0, 1, 0)), (1, (1, 0, 0)), (1, (1, 1, 1)),
                       (2, (0, 1, 0)), (2, (1, 1, 0)), (1, (0, 1, 1)),
                       (2, (1, 2, 1))):
        out.append(Case('PID %d %s' % (order, pid), 'h_control',
                        dict(cls='ElastodynamicsPIDTSC', order=order,
                             K=3 if order == 1 and (th or sum(pid) == 1)
                             else 2,
                             pid=pid)))
    for cls in ('ElastodynamicsBasicTSC', 'ElastodynamicsLinearTSC'):
        out.append(Case('rest %s' % cls, 'h_zero_error', dict(cls=cls)))
    for pid in ((0, 1, 0), (1, 1, 0), (0.5, 0.25, 0.125)):
        out.append(Case('rest PID %s' % (pid,), 'h_zero_error',
                        dict(cls='ElastodynamicsPIDTSC', pid=pid)))
    for n in (1, 2):
        for extra in (False, True):
            out.append(Case('error estimate %d %d' % (n, extra), 'h_errors',
                            dict(n=n, extra=extra)))
    for guess in (False, True):
        out.append(Case('initial step %d' % guess, 'h_initial',
                        dict(guess=guess)))
    for n in (1, 2, 3):
        for b in (False, True):
            out.append(Case('times sequence %d %d' % (n, b), 'h_times_seq',
                            dict(n=n, beyond=b)))
    return out


def warm():
    from symx import driver
    import sfepy.solvers.ts
    import sfepy.solvers.ts_solvers
    import sfepy.solvers.ts_controllers
    h_simple(driver.Ctx('conc'), 3, False)
