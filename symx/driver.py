"""
Path-exploring symbolic execution driver and the SMT decision procedures.

A harness is a function `h(ctx, **params)` that obtains its inputs from the
context, runs real sfepy code on them and states claims.  The same harness is
run in two modes:

- 'sym': inputs are symbolic, every path is explored, every claim is decided
  by z3 for all values of the inputs;
- 'conc': inputs are the values of a counterexample, the code is the real
  code (compiled extension modules included), the claims are evaluated
  numerically.  Used to replay counterexamples.
"""
import sys
import time
import math
import random
import itertools
import traceback
from fractions import Fraction

import numpy as np

from . import expr as E
from . import poly as P
from . import symnp as N
from . import spmat
spmat.install()

import z3

z3.set_param('memory_max_size', 3500)


# Equality claims hold up to this relative tolerance (the constants of the
# code are doubles).
TOL = Fraction(1, 10**11)


class PathInfeasible(BaseException):
    pass


class PathLimit(BaseException):
    pass


class CaseTimeout(BaseException):
    pass


class Inconclusive(Exception):
    pass


class ClaimFailed(Exception):
    """Concrete claim failure (replay mode)."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.claims = 0
        self.claims_proved = 0
        self.syntactic = 0
        self.paths = 0
        self.forks = 0
        self.lra = 0
        self.nra = 0

    def as_dict(self):
        return dict(self.__dict__)


class Z3Conv:
    def __init__(self):
        self.cache = {}
        self.axioms = []
        self.keep = []

    def __call__(self, root):
        c = self.cache
        for n in E.topo([root]):
            if n.i in c:
                continue
            op = n.op
            if op == 'c':
                v = n.a
                if type(v) is int:
                    e = z3.IntVal(v) if n.sort == 'I' else z3.RealVal(v)
                else:
                    e = z3.Q(v.numerator, v.denominator)
            elif op == 'v':
                e = z3.Int(n.a) if n.sort == 'I' else z3.Real(n.a)
            elif op == 'bv':
                e = z3.Bool(n.a)
            elif op == 'T':
                e = z3.BoolVal(True)
            elif op == 'F':
                e = z3.BoolVal(False)
            elif op == '+':
                e = c[n.a[0].i] + c[n.a[1].i]
            elif op == '*':
                e = c[n.a[0].i] * c[n.a[1].i]
            elif op == '/':
                e = _real(c[n.a[0].i]) / _real(c[n.a[1].i])
            elif op == '^':
                a = c[n.a[0].i]
                e = a
                for _ in range(n.a[1] - 1):
                    e = e * a
            elif op == '//':
                # z3 div rounds so that remainder is >= 0; with a positive
                # divisor this is the Python floor division.
                a, b = c[n.a[0].i], c[n.a[1].i]
                e = z3.If(b > 0, a / b, (-a) / (-b))
            elif op == '%':
                a, b = c[n.a[0].i], c[n.a[1].i]
                e = z3.If(b > 0, a % b, -((-a) % (-b)))
            elif op == 'f':
                e = self.fun(n, [_real(c[x.i]) for x in n.a[1:]])
            elif op == '<':
                e = c[n.a[0].i] < c[n.a[1].i]
            elif op == '<=':
                e = c[n.a[0].i] <= c[n.a[1].i]
            elif op == '=':
                e = c[n.a[0].i] == c[n.a[1].i]
            elif op == 'not':
                e = z3.Not(c[n.a[0].i])
            elif op == 'and':
                e = z3.And(c[n.a[0].i], c[n.a[1].i])
            elif op == 'or':
                e = z3.Or(c[n.a[0].i], c[n.a[1].i])
            elif op == 'ite':
                e = z3.If(c[n.a[0].i], c[n.a[1].i], c[n.a[2].i])
            else:
                raise E.SymError('no z3 translation of %s' % op)
            c[n.i] = e
        return c[root.i]

    def fun(self, n, args):
        name = n.a[0]
        v = z3.Real('f!%d' % n.i)
        a = args[0]
        if name == 'sqrt':
            self.axioms.append(z3.Implies(a >= 0,
                                          z3.And(v >= 0, v * v == a)))
        elif name == 'pow' and n.a[2].op == 'c' \
                and Fraction(n.a[2].a).numerator == 1:
            k = Fraction(n.a[2].a).denominator
            p = v
            for _ in range(k - 1):
                p = p * v
            self.axioms.append(z3.Implies(a >= 0, z3.And(v >= 0, p == a)))
        elif name == 'floor':
            i = z3.Int('fl!%d' % n.i)
            self.axioms.append(z3.And(z3.ToReal(i) <= a,
                                      a < z3.ToReal(i) + 1,
                                      v == z3.ToReal(i)))
        elif name == 'ceil':
            i = z3.Int('ce!%d' % n.i)
            self.axioms.append(z3.And(z3.ToReal(i) >= a,
                                      a > z3.ToReal(i) - 1,
                                      v == z3.ToReal(i)))
        else:
            rs = z3.RealSort()
            f = z3.Function('uf_' + name, *([rs] * (len(args) + 1)))
            v = f(*args)
            if name == 'exp':
                self.axioms.append(z3.And(
                    v > 0, z3.Implies(a > 0, v > 1),
                    z3.Implies(a < 0, v < 1), z3.Implies(a == 0, v == 1)))
            elif name in ('sin', 'cos', 'tanh'):
                self.axioms.append(z3.And(v >= -1, v <= 1))
                if name in ('sin', 'cos'):
                    o = z3.Function('uf_' + ('cos' if name == 'sin'
                                             else 'sin'), rs, rs)(a)
                    self.axioms.append(v * v + o * o == 1)
        return v


def _real(e):
    return z3.ToReal(e) if e.is_int() else e


def _val(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return f.numerator if f.denominator == 1 else f
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise Inconclusive('model value %s' % v)


def frac_str(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v
    return '%d/%d' % (v.numerator, v.denominator)


def parse_val(v):
    if isinstance(v, (bool, int)):
        return v
    if isinstance(v, float):
        return v
    f = Fraction(v)
    return f.numerator if f.denominator == 1 else f


class Violation:
    def __init__(self, case, label, values, detail, kind='claim'):
        self.case = case
        self.label = label
        self.values = values
        self.detail = detail
        self.kind = kind


class Ctx:
    """What a harness sees."""

    def __init__(self, mode, values=None, driver=None, seed=1):
        self.mode = mode
        self.sym = mode == 'sym'
        self.values = values or {}
        self.driver = driver
        self.bounds = {}
        self.reached = []
        self.notes = []
        self.failures = []
        self.nclaims = 0
        self.rng = random.Random(seed)
        self._names = {}

    # --- inputs
    def _declare(self, name, lo, hi, sort):
        if name in self.bounds:
            raise E.SymError('input %s declared twice' % name)
        self.bounds[name] = (lo, hi, sort)

    def _real1(self, name, lo, hi):
        self._declare(name, lo, hi, 'R')
        if self.sym:
            v = E.var(name)
            if lo is not None:
                self.driver.assume_raw(E.le(E.lift(lo), v))
            if hi is not None:
                self.driver.assume_raw(E.le(v, E.lift(hi)))
            return v
        v = self.values.get(name)
        if v is None:
            v = self._default(lo, hi)
            self.values[name] = v
        return float(parse_val(v))

    def _default(self, lo, hi):
        l = -2.0 if lo is None else float(lo)
        h = 2.0 if hi is None else float(hi)
        if lo is None and hi is not None:
            l = h - 4
        if hi is None and lo is not None:
            h = l + 4
        return self.rng.uniform(l, h)

    def real(self, name, shape=None, lo=None, hi=None):
        if shape is None:
            return self._real1(name, lo, hi)
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object if self.sym else np.float64)
        for ii in np.ndindex(*shape):
            out[ii] = self._real1(name + ''.join('_%d' % i for i in ii),
                                  lo, hi)
        return N.wrap(out)

    def int(self, name, lo, hi):
        """Symbolic integer (branching on it forks, indexing with it
        enumerates its feasible values by solver queries)."""
        self._declare(name, lo, hi, 'I')
        if self.sym:
            v = E.var(name, 'I')
            self.driver.assume_raw(E.le(E.const(lo), v))
            self.driver.assume_raw(E.le(v, E.const(hi)))
            return v
        v = self.values.get(name)
        if v is None:
            v = self.rng.randint(lo, hi)
            self.values[name] = v
        return int(v)

    def ints(self, name, shape, lo, hi):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object if self.sym else np.int32)
        for ii in np.ndindex(*shape):
            out[ii] = self.int(name + ''.join('_%d' % i for i in ii), lo, hi)
        if self.sym:
            out = N.wrap(out)
            out._sdt = N.I4
        return out

    def choice(self, name, n):
        """Symbolic structural choice 0..n-1: one path per value."""
        v = self.int(name, 0, n - 1)
        return v.__index__() if self.sym else v

    def bool(self, name):
        self._declare(name, 0, 1, 'B')
        if self.sym:
            return E.boolvar(name)
        v = self.values.get(name)
        if v is None:
            v = self.rng.random() < 0.5
            self.values[name] = v
        return bool(v)

    def const(self, x):
        """Exact constants in the symbolic mode."""
        return N.wrap(E.to_obj(x)) if self.sym \
            else np.asarray(x, dtype=np.float64)

    def concrete(self):
        """Context manager: plain numpy allocations (set-up of concrete
        meshes etc.)."""
        return N.concrete(False)

    def derivative(self, f, x, h=1e-3):
        """d f(x) / d x_k, shape f.shape + (n,): exact in the symbolic mode,
        a finite difference of order 4 in the replay."""
        x = np.asarray(x) if not self.sym else N.base(x)
        n = x.size
        if self.sym:
            y = f(N.wrap(x.copy()))
            yo = E.to_obj(y)
            nodes = list(yo.reshape(-1))
            out = np.empty((yo.size, n), dtype=object)
            for k, v in enumerate(x.reshape(-1)):
                out[:, k] = E.diff_many(nodes, v)
            return y, N.wrap(out.reshape(yo.shape + (n,)))
        y = np.array(f(x.copy()), dtype=np.float64)
        out = np.empty((y.size, n))
        for k in range(n):
            d = []
            for s in (-2, -1, 1, 2):
                xx = x.copy().reshape(-1)
                xx[k] += s * h
                d.append(np.array(f(xx.reshape(x.shape)),
                                  dtype=np.float64).reshape(-1))
            out[:, k] = (d[0] - 8 * d[1] + 8 * d[2] - d[3]) / (12 * h)
        return y, out.reshape(y.shape + (n,))

    # --- assumptions, claims
    def assume(self, cond):
        if self.sym:
            self.driver.assume(cond)
        else:
            if isinstance(cond, E.SymBool):
                cond = cond.op == 'T'
            if not np.all(cond):
                raise PathInfeasible('assumption does not hold')

    def eq(self, a, b, label='', tol=TOL, rtol=1e-7):
        """All entries of a and b are equal (|a - b| <= tol * (size of the
        monomials) for the given input bounds if tol is nonzero)."""
        self.nclaims += 1
        sa, sb = np.shape(a), np.shape(b)
        if sa and sb and sa != sb:
            self._fail('%s: shapes %s and %s differ' % (label, sa, sb))
            return
        if self.sym:
            self.driver.claim_eq(a, b, label, tol)
            return
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype == object:
            x = E.to_float(x)
        if y.dtype == object:
            y = E.to_float(y)
        x, y = np.broadcast_arrays(x, y)
        if x.size == 0:
            return
        with np.errstate(all='ignore'):
            scale = 1 + np.maximum(np.abs(x), np.abs(y))
            bad = ~(np.abs(x - y) <= max(rtol, 100 * float(tol)) * scale)
        if bad.any():
            ii = tuple(int(k) for k in np.argwhere(bad)[0]) if bad.ndim \
                else ()
            self.failures.append(
                '%s: %r != %r at %s' % (label, x[ii], y[ii], ii))

    def same(self, a, b, label=''):
        """Equality of concrete/integer values (shapes included)."""
        self.nclaims += 1
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            self._fail('%s: shapes %s != %s' % (label, x.shape, y.shape))
            return
        if self.sym and (E.has_sym(x) or E.has_sym(y)):
            self.nclaims -= 1
            self.eq(x, y, label)
            return
        if self.sym:
            self.driver.stats.claims += 1
        if not bool((x == y).all()):
            self._fail('%s: %s != %s' % (label, _short(x), _short(y)))
        elif self.sym:
            self.driver.stats.claims_proved += 1
            self.driver.stats.syntactic += 1

    def _fail(self, msg):
        if self.sym:
            self.driver.claim_true(E.bfalse(), msg)
        else:
            self.failures.append(msg)

    def true(self, cond, label=''):
        self.nclaims += 1
        if self.sym:
            self.driver.claim_true(cond, label)
            return
        if isinstance(cond, E.SymBool):
            cond = cond.op == 'T'
        c = np.asarray(cond)
        if c.dtype == object:
            c = np.array([(x.op == 'T' if isinstance(x, E.SymBool)
                           else bool(x)) for x in c.reshape(-1)])
        if not bool(np.all(c)):
            self.failures.append('%s does not hold' % label)

    def le(self, a, b, label='', tol=1e-9):
        """a <= b (elementwise)."""
        if self.sym:
            a, b = np.broadcast_arrays(E.to_obj(a), E.to_obj(b))
            self.true(E.conj(E.le(x, y) for x, y in
                             zip(a.reshape(-1), b.reshape(-1))), label)
        else:
            a, b = E.to_float(a), E.to_float(b)
            self.true(np.all(a <= b + tol * (1 + np.abs(a) + np.abs(b))),
                      label)

    def raises(self, exc, fun, label=''):
        """fun() raises exc."""
        try:
            fun()
        except exc:
            self.true(True, label)
            return True
        self.true(False, label + ': expected ' + str(exc))
        return False

    def reach(self, label='end'):
        self.reached.append(label)

    # --- helpers usable in both modes
    def ite(self, c, a, b):
        if isinstance(c, E.SymBool):
            return E.ite(c, a, b)
        return a if c else b

    def And(self, *cs):
        if self.sym:
            return E.conj(cs)
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        if self.sym:
            return E.disj(cs)
        return any(bool(c) for c in cs)

    def Not(self, c):
        if isinstance(c, E.SymBool):
            return E.bnot(c)
        return not c

    def diff(self, exprs, v):
        """Exact derivatives of an object array w.r.t. an input (sym mode)."""
        arr = np.asarray(exprs, dtype=object)
        ds = E.diff_many([E.lift(x) for x in arr.reshape(-1)], v)
        out = np.empty(arr.size, dtype=object)
        for k, d in enumerate(ds):
            out[k] = d
        return out.reshape(arr.shape)


def _short(x):
    s = repr(np.asarray(x).tolist())
    return s if len(s) < 200 else s[:200] + '..'


class Driver:
    """Explores all paths of one harness case."""

    def __init__(self, case, harness, params, max_paths=2000,
                 fork_timeout=3000, nra_timeout=20000, deadline=None,
                 seed=1, max_viol=3, find_timeout=None):
        self.case = case
        self.harness = harness
        self.params = params
        self.stats = Stats()
        self.max_paths = max_paths
        self.fork_timeout = fork_timeout
        self.nra_timeout = nra_timeout
        self.deadline = deadline
        self.seed = seed
        self.violations = []
        self.inconclusive = []
        self.max_viol = max_viol
        self.reach_labels = set()
        self.known_dead = 0
        self.witnesses = []
        self.want_witness = True
        self.ninputs = 0

    # --- exploration
    def run(self):
        stack = [[]]
        E.DRIVER = self
        try:
            while stack:
                prefix = stack.pop()
                if self.stats.paths >= self.max_paths:
                    self.inconclusive.append('path limit %d reached'
                                             % self.max_paths)
                    break
                if self.deadline and time.time() > self.deadline:
                    self.inconclusive.append('time limit reached')
                    break
                self.prefix = prefix
                self.decisions = []
                self.pending = []
                self.run_path()
                stack.extend(self.pending)
                if len(self.violations) >= self.max_viol:
                    break
        finally:
            E.DRIVER = None
        return self

    def run_path(self):
        self.conv = Z3Conv()
        self.solver = z3.Solver()
        self.solver.set('timeout', self.fork_timeout)
        self.nax = 0
        self.path = []
        self.eqs = []
        self.norm = None
        self.bool_claims = []
        self.ctx = ctx = Ctx('sym', driver=self, seed=self.seed)
        self.stats.paths += 1
        try:
            self.harness(ctx, **self.params)
        except PathInfeasible:
            self.flush()
            return
        except (PathLimit, CaseTimeout):
            raise
        except Inconclusive as exc:
            self.inconclusive.append('inconclusive: %s' % exc)
            return
        except E.Concretisation as exc:
            self.engine_error(exc)
            return
        except Exception as exc:
            self.code_exception(exc)
            return
        self.flush()
        self.ninputs = max(self.ninputs, len(ctx.bounds))
        if self.ctx.nclaims:
            self.reach_labels.update(ctx.reached or ['end'])
            if self.want_witness and not self.violations and (
                    not self.witnesses
                    or (len(self.witnesses) < 2 and not self.pending)):
                w = self.find_model(lambda s: None, [], tries=4)
                if w is None:
                    w = self.model_of_path()
                if w is not None:
                    self.witnesses.append(w)

    def concretise_trunc(self, v):
        i = E.var('tr!%d' % v.i, 'I')
        one = E.const(1)
        self.assume_raw(E.bor(
            E.conj([E.le(E.const(0), v), E.le(i, v),
                    E.lt(v, E.add(i, one))]),
            E.conj([E.lt(v, E.const(0)), E.lt(E.sub(i, one), v),
                    E.le(v, i)])))
        return self.concretise_int(i)

    def concretise_round(self, v):
        """Round half to even."""
        i = E.var('rd!%d' % v.i, 'I')
        k = E.var('rk!%d' % v.i, 'I')
        half = E.const(Fraction(1, 2))
        d = E.sub(v, i)
        tie = E.conj([E.bor(E.eq(d, half), E.eq(d, -half)),
                      E.eq(i, E.mul(E.const(2), k))])
        self.assume_raw(E.bor(E.conj([E.lt(-half, d), E.lt(d, half)]), tie))
        return self.concretise_int(i)

    def engine_error(self, exc):
        tb = traceback.format_exc(limit=-6)
        self._exc_violation('engine', exc, tb)

    def code_exception(self, exc):
        tb = traceback.format_exc(limit=-8)
        self._exc_violation('exception', exc, tb)

    def _exc_violation(self, kind, exc, tb):
        self.flush()
        vals = self.model_of_path()
        if vals is None:
            return
        self.violations.append(Violation(
            self.case, '%s: %s: %s' % (kind, type(exc).__name__, exc), vals,
            tb, kind=kind))

    # --- solver plumbing
    def zc(self, cond):
        e = self.conv(cond)
        while self.nax < len(self.conv.axioms):
            self.solver.add(self.conv.axioms[self.nax])
            self.nax += 1
        return e

    def check(self, *extra, timeout=None, solver=None):
        s = solver or self.solver
        if timeout:
            s.set('timeout', int(timeout))
        t0 = time.time()
        try:
            r = s.check(*extra)
        except z3.Z3Exception as exc:
            r = z3.unknown
        self.stats.queries += 1
        self.stats.solver_time += time.time() - t0
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        if timeout:
            s.set('timeout', self.fork_timeout)
        return r

    def assume_raw(self, cond):
        if cond.op == 'T':
            return
        if cond.op == 'F':
            raise PathInfeasible()
        self.path.append(cond)
        self.solver.add(self.zc(cond))

    def assume(self, cond):
        if isinstance(cond, np.ndarray):
            cond = E.conj(cond.reshape(-1))
        cond = E.liftb(cond)
        self.assume_raw(cond)
        r = self.check()
        if r == z3.unsat:
            raise PathInfeasible()

    def fork(self, cond):
        k = len(self.decisions)
        self.stats.forks += 1
        if self.deadline and time.time() > self.deadline:
            self.inconclusive.append('time limit reached in a path')
            raise PathInfeasible()
        if k < len(self.prefix):
            d = self.prefix[k]
            if d[0] == 'forced':
                # forced decisions are recomputed the same way
                self.decisions.append(d)
                if d[1] is None:
                    raise PathInfeasible()
                return d[1]
            self.decisions.append(d)
            self.assume_raw(cond if d[1] else E.bnot(cond))
            return d[1]
        e = self.zc(cond)
        rt = self.check(e)
        if rt == z3.unsat:
            self.decisions.append(('forced', False))
            return False
        rf = self.check(z3.Not(e))
        if rf == z3.unsat:
            self.decisions.append(('forced', True))
            return True
        # both possible
        self.pending.append(self.decisions + [('d', False)])
        self.decisions.append(('d', True))
        self.assume_raw(cond)
        return True

    def concretise_int(self, sym):
        """Fork over all feasible values of an integer expression."""
        k = len(self.decisions)
        e = None
        if k < len(self.prefix):
            d = self.prefix[k]
            if d[0] == 'int':
                self.decisions.append(d)
                self.assume_raw(E.eq(sym, E.const(d[1])))
                return d[1]
        e = self.zc(E.eq(sym, E.const(0)))
        ze = self.conv.cache[sym.i]
        vals = []
        self.solver.push()
        while True:
            r = self.check()
            if r == z3.unsat:
                break
            if r != z3.sat:
                self.solver.pop()
                raise Inconclusive('cannot enumerate %s' % E.show(sym, 80))
            v = self.solver.model().eval(ze, model_completion=True).as_long()
            vals.append(v)
            if len(vals) > 4096:
                self.solver.pop()
                raise Inconclusive('too many values of %s'
                                   % E.show(sym, 80))
            self.solver.add(ze != v)
        self.solver.pop()
        if not vals:
            raise PathInfeasible()
        vals.sort()
        for v in reversed(vals[1:]):
            self.pending.append(self.decisions + [('int', v)])
        self.decisions.append(('int', vals[0]))
        self.assume_raw(E.eq(sym, E.const(vals[0])))
        return vals[0]

    # --- claims
    def claim_eq(self, a, b, label, tol):
        a, b = E.to_obj(a), E.to_obj(b)
        a, b = np.broadcast_arrays(a, b)
        for ii, (x, y) in enumerate(zip(a.reshape(-1), b.reshape(-1))):
            self.stats.claims += 1
            self.eqs.append((x, y, label, ii, tol))
        if len(self.eqs) > 3000:
            self.flush_eqs()

    def claim_true(self, cond, label):
        if isinstance(cond, np.ndarray):
            cond = E.conj(cond.reshape(-1))
        cond = E.liftb(cond)
        self.stats.claims += 1
        if cond.op == 'T':
            self.stats.claims_proved += 1
            self.stats.syntactic += 1
            return
        self.flush_eqs()
        e = self.zc(cond)
        r = self.check(z3.Not(e), timeout=self.nra_timeout)
        if r == z3.unsat:
            self.stats.claims_proved += 1
            # A proved claim may be used from now on.
            return
        if r == z3.sat:
            vals = self.get_values(self.solver.model())
        else:
            vals = self.find_model(lambda s: s.add(z3.Not(e)),
                                   [E.bnot(cond)])
        if vals is None:
            self.inconclusive.append('claim undecided: %s' % label)
            return
        self.violations.append(Violation(self.case, label, vals,
                                         'claim %s' % E.show(cond, 300)))

    def flush(self):
        self.flush_eqs()

    def decide_cond(self, c):
        """True/False if the condition is decided on the current path."""
        if c.op == 'T':
            return True
        if c.op == 'F':
            return False
        r = self.dcache.get(c.i, 0)
        if r != 0:
            return r
        r = None
        e = self.zc(c)
        first = [True, False]
        if self.ctx.bounds and not self.probe(c):
            first = [False, True]
        for want in first[:1]:
            if self.check(z3.Not(e) if want else e, timeout=3000) \
                    == z3.unsat:
                r = want
        self.dcache[c.i] = r
        return r

    def probe(self, c):
        pt = {}
        for v in E.free_vars([c]):
            b = self.ctx.bounds.get(v.a, (None, None, 'R'))
            lo = 0 if b[0] is None else E.num(b[0])
            hi = lo + 1 if b[1] is None else E.num(b[1])
            pt[v.a] = lo + (hi - lo) * 0.37 if v.sort == 'R' else lo
        try:
            return bool(E.evaluate([c], pt)[0])
        except Exception:
            return True

    # --- bounds of atoms (interval arithmetic on the normal forms)
    NSUB = {1: 32, 2: 8}

    def var_range(self, node, box):
        if box and node.i in box:
            return box[node.i]
        if node.op == 'v':
            bb = self.ctx.bounds.get(node.a)
            if bb is None or bb[0] is None or bb[1] is None:
                return None
            return float(E.num(bb[0])), float(E.num(bb[1]))
        if node.op != 'f':
            return None
        f = node.a[0]
        rs = []
        for x in node.a[1:]:
            (r,) = self.norm.run([x])
            r = self.rat_range(r, box)
            if r is None:
                return None
            rs.append(r)
        try:
            lo, hi = rs[0]
            if f == 'sqrt':
                if lo < 0:
                    return None
                r = math.sqrt(lo), math.sqrt(hi)
            elif f == 'pow' and len(rs) == 2 and rs[1][0] == rs[1][1]:
                e = rs[1][0]
                if lo <= 0:
                    return None
                r = sorted((lo ** e, hi ** e))
            elif f == 'exp':
                r = math.exp(lo), math.exp(hi)
            elif f == 'log':
                if lo <= 0:
                    return None
                r = math.log(lo), math.log(hi)
            elif f == 'abs':
                r = (0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi)),
                     max(abs(lo), abs(hi)))
            elif f in ('sin', 'cos', 'tanh'):
                r = -1.0, 1.0
            else:
                return None
        except (OverflowError, ValueError):
            return None
        return _out(*r)

    def poly_range(self, p, box):
        lo = hi = 0.0
        rr = {}
        for m, c in p.items():
            a, b = 1.0, 1.0
            for v, ee in m:
                r = rr.get(v)
                if r is None:
                    r = self.var_range(self.norm.varnodes[v], box)
                    if r is None:
                        return None
                    rr[v] = r
                l, h = r
                pl, ph = l ** ee, h ** ee
                if ee % 2 == 0:
                    if l < 0 < h:
                        pl, ph = 0.0, max(pl, ph)
                    elif pl > ph:
                        pl, ph = ph, pl
                q = (a * pl, a * ph, b * pl, b * ph)
                a, b = _out(min(q), max(q))
            c = float(c)
            l, h = _out(min(c * a, c * b), max(c * a, c * b))
            lo, hi = _out(lo + l, hi + h)
        return lo, hi

    def rat_range(self, r, box):
        num, den = r
        n = self.poly_range(num, box)
        if n is None:
            return None
        lo, hi = n
        for k, e in den:
            d = self.poly_range(self.norm.dens[k], box)
            if d is None or d[0] <= 0 <= d[1]:
                return None
            for _ in range(e):
                q = (lo / d[0], lo / d[1], hi / d[0], hi / d[1])
                lo, hi = _out(min(q), max(q))
        return lo, hi

    def base_vars(self, p, out=None):
        out = {} if out is None else out
        for m in p:
            for v, _ in m:
                n = self.norm.varnodes[v]
                if n.op == 'v':
                    out[n.i] = n
                else:
                    for x in E.free_vars([n]):
                        out[x.i] = x
        return out

    def boxes(self, fv):
        """Subdivision of the box of (one or two) variables."""
        k = self.NSUB.get(len(fv))
        if k is None:
            return [{}]
        axes = []
        for n in fv.values():
            r = self.var_range(n, None)
            if r is None or n.sort != 'R':
                return [{}]
            st = (r[1] - r[0]) / k
            axes.append([(n.i, (r[0] + j * st, r[0] + (j + 1) * st))
                         for j in range(k)])
        return [dict(c) for c in itertools.product(*axes)]

    def mono_bound(self, m):
        b = Fraction(1)
        for v, e in m:
            key = ('b', v)
            mx = self.rcache.get(key, 0)
            if mx == 0:
                node = self.norm.varnodes[v]
                mx = None
                if node.op == 'v':
                    r = self.var_range(node, None)
                    if r is not None:
                        mx = Fraction(max(abs(r[0]), abs(r[1])))
                else:
                    rs = [self.var_range(node, box) for box in self.boxes(
                        {x.i: x for x in E.free_vars([node])})]
                    if all(r is not None for r in rs):
                        mx = Fraction(max(max(abs(r[0]), abs(r[1]))
                                          for r in rs))
                self.rcache[key] = mx
            if mx is None:
                return None
            b *= mx ** e
        return b

    def den_bound(self, den):
        """A positive lower bound of the absolute value of a denominator
        (interval arithmetic) or None."""
        low = Fraction(1)
        for k, e in den:
            key = ('d', k)
            mn = self.rcache.get(key, 0)
            if mn == 0:
                p = self.norm.dens[k]
                mn = None
                rs = [self.poly_range(p, box)
                      for box in self.boxes(self.base_vars(p))]
                if all(r is not None and not (r[0] <= 0 <= r[1])
                       for r in rs):
                    mn = Fraction(min(min(abs(r[0]), abs(r[1]))
                                      for r in rs))
                self.rcache[key] = mn
            if not mn:
                return None
            low *= mn ** e
        return low

    def flush_eqs(self):
        eqs, self.eqs = self.eqs, []
        if not eqs:
            return
        if self.norm is None:
            self.norm = P.Normaliser()
            self.norm.decide = self.decide_cond
            self.rcache = {}
            self.dcache = {}
        norm = self.norm
        todo = []
        for q in eqs:
            x, y, label, ii, tol = q
            if x is y:
                self.stats.claims_proved += 1
                self.stats.syntactic += 1
                continue
            try:
                rx, ry = norm.run([x, y])
                px, py, den = norm.cross(rx, ry)
            except P.TooBig:
                todo.append((q, None))
                continue
            except ZeroDivisionError:
                todo.append((q, None))
                continue
            todo.append((q, (px, py, den)))
        # one linear query over monomials for the batch
        lin = [(q, pp) for q, pp in todo if pp is not None]
        hard = [q for q, pp in todo if pp is None]
        for c0 in range(0, len(lin), 400):
            batch = lin[c0:c0 + 400]
            ok = self.lra_query(batch)
            if ok:
                self.stats.claims_proved += len(batch)
                continue
            for one in batch:
                if (len(batch) > 1 and self.lra_query([one])) \
                        or (one[0][4] and self.lra_query([one], True)):
                    self.stats.claims_proved += 1
                else:
                    hard.append(one[0])
        nviol = 0
        for q in hard:
            if nviol >= 2:
                self.stats.claims -= 1
                continue
            if self.deadline and time.time() > self.deadline:
                self.inconclusive.append('time limit reached in claims')
                break
            if self.nra_query(q):
                self.stats.claims_proved += 1
            else:
                nviol += 1

    def lra_query(self, batch, use_tol=False):
        """unsat of: some claim's sides differ, monomials arbitrary."""
        names = {}
        decl = []
        bnds = []
        cons = []

        def mono(m):
            k = names.get(m)
            if k is None:
                k = names[m] = 'm%d' % len(names)
                decl.append('(declare-const %s Real)' % k)
            return k

        def lin(p):
            ts = []
            for m, c in p.items():
                if m == ():
                    ts.append(_q(c))
                else:
                    ts.append('(* %s %s)' % (_q(c), mono(m)))
            if not ts:
                return '0.0'
            if len(ts) == 1:
                return ts[0]
            return '(+ ' + ' '.join(ts) + ')'

        bounded = set()
        for q, (px, py, den) in batch:
            x, y, label, ii, tol = q
            if not use_tol:
                cons.append('(not (= %s %s))' % (lin(px), lin(py)))
            else:
                size = Fraction(0)
                lowd = self.den_bound(den)
                if not lowd:
                    return False
                for m in set(px) | set(py):
                    b = Fraction(1) if m == () else self.mono_bound(m)
                    if b is None:
                        return False
                    size += b * max(abs(Fraction(px.get(m, 0))),
                                    abs(Fraction(py.get(m, 0))))
                    if m == () or m in bounded:
                        continue
                    k = mono(m)
                    bnds.append('(assert (and (<= %s %s) (<= (- %s) %s)))'
                                % (k, _q(b), k, _q(b)))
                    bounded.add(m)
                d = '(- %s %s)' % (lin(px), lin(py))
                t = _q(Fraction(tol) * (lowd + size))
                cons.append('(or (> %s %s) (< %s (- %s)))'
                            % (d, t, d, t))
        txt = '\n'.join(decl + bnds) + '\n(assert (or false %s))\n' % \
            '\n'.join(cons)
        s = z3.SolverFor('QF_LRA')
        s.from_string(txt)
        self.stats.lra += 1
        r = self.check(solver=s, timeout=self.nra_timeout)
        return r == z3.unsat

    def nra_query(self, q):
        """Full query with the path condition; True if proved."""
        x, y, label, ii, tol = q
        self.stats.nra += 1
        lab = '%s[%d]' % (label, ii)
        ncond = E.bnot(E.eq(x, y))
        try:
            rx, ry = self.norm.run([x, y])
            big = False
        except (P.TooBig, ZeroDivisionError):
            big = True
        # 1. refute quickly: a point where both sides differ
        vals = self.quick_diff(x, y, tol)
        if vals is None:
            # 2. solver, exact
            e = self.zc(ncond)
            if tol:
                d = E.sub(x, y)
                t = E.const(E._norm(Fraction(tol) * 10))
                e = z3.And(e, self.zc(E.bor(E.lt(t, d),
                                            E.lt(d, E.neg(t)))))
            r = self.check(e, timeout=self.nra_timeout)
            if r == z3.unsat:
                return True
            if r == z3.sat:
                vals = self.get_values(self.solver.model())
            else:
                self.inconclusive.append('claim undecided: %s' % lab)
                return False
        self.violations.append(Violation(
            self.case, lab, vals,
            'lhs = %s\nrhs = %s' % (E.show(x, 200), E.show(y, 200))))
        return False

    def quick_diff(self, x, y, tol):
        """Ask the solver for a point where x and y differ with a margin:
        all inputs but few are fixed to candidate values first, which makes
        the query (nearly) univariate; None if nothing was found."""
        rng = random.Random(self.seed)
        fv = E.free_vars([x, y] + self.path)
        d = E.sub(x, y)
        if not self.may_differ(x, y, fv):
            return None
        for attempt in range(6):
            s = z3.Solver()
            s.set('timeout', 4000)
            conv = Z3Conv()
            for c in self.path:
                s.add(conv(c))
            nfree = 2 if attempt < 4 else 1
            order = list(fv)
            rng.shuffle(order)
            fixed = {}
            s2 = []
            for v in order[nfree:]:
                if v.op == 'bv':
                    continue
                b = self.ctx.bounds.get(v.a, (None, None, 'R'))
                lo = -3 if b[0] is None else b[0]
                hi = 3 if b[1] is None else b[1]
                if b[0] is None and b[1] is not None:
                    lo = hi - 4
                if b[1] is None and b[0] is not None:
                    hi = lo + 4
                if v.sort == 'I':
                    val = rng.randint(int(lo), int(hi))
                else:
                    val = Fraction(E.num(lo)) + Fraction(
                        rng.randint(1, 15), 16) * (Fraction(E.num(hi))
                                                   - Fraction(E.num(lo)))
                fixed[v] = E.const(E._norm(val))
            try:
                xs = E.subs([d] + list(self.path), fixed)
            except (ZeroDivisionError, E.SymError):
                continue
            s = z3.Solver()
            s.set('timeout', 4000)
            conv = Z3Conv()
            try:
                for c in xs[1:]:
                    s.add(conv(c))
                m = E.const(Fraction(1, 1000))
                s.add(conv(E.bor(E.lt(m, xs[0]), E.lt(xs[0], E.neg(m)))))
            except (ZeroDivisionError, E.SymError):
                continue
            for a in conv.axioms:
                s.add(a)
            r = self.check(solver=s, timeout=4000)
            if r == z3.sat:
                mod = s.model()
                vals = {}
                for name, b in self.ctx.bounds.items():
                    vals[name] = self._mval(mod, name, b)
                for v, c in fixed.items():
                    vals[v.a] = c.a
                return vals
        return None

    def may_differ(self, x, y, fv):
        """Floating point probing; only steers the search for a
        counterexample."""
        if any(v.sort != 'R' for v in fv):
            return True
        rng = random.Random(self.seed + 5)
        ok = 0
        for _ in range(40):
            pt = {}
            for v in fv:
                b = self.ctx.bounds.get(v.a, (None, None, 'R'))
                lo = -3.0 if b[0] is None else float(E.num(b[0]))
                hi = lo + 6 if b[1] is None else float(E.num(b[1]))
                pt[v.a] = lo + (hi - lo) * rng.random()
            try:
                vals = E.evaluate([x, y] + self.path, pt)
            except (ZeroDivisionError, ValueError, OverflowError, KeyError,
                    E.SymError):
                continue
            if not all(vals[2:]):
                continue
            ok += 1
            if not abs(vals[0] - vals[1]) <= 1e-8 * (
                    1 + abs(vals[0]) + abs(vals[1])):
                return True
            if ok >= 12:
                return False
        return ok == 0

    def _mval(self, mod, name, b):
        if b[2] == 'I':
            e = z3.Int(name)
        elif b[2] == 'B':
            e = z3.Bool(name)
        else:
            e = z3.Real(name)
        return _val(mod, e)

    def get_values(self, model):
        vals = {}
        for name, b in self.ctx.bounds.items():
            vals[name] = self._mval(model, name, b)
        return vals

    def model_of_path(self):
        r = self.check(timeout=self.nra_timeout)
        if r == z3.unsat:
            return None
        if r == z3.sat:
            return self.get_values(self.solver.model())
        return self.find_model(lambda s: None, [])

    @staticmethod
    def _cand(rng, b):
        if b[2] == 'B':
            return rng.random() < 0.5
        lo = (-3 if b[1] is None else b[1] - 6) if b[0] is None else b[0]
        hi = (lo + 6) if b[1] is None else b[1]
        if b[2] == 'I':
            return rng.randint(int(lo), int(hi))
        return E._norm(Fraction(E.num(lo)) + Fraction(
            rng.randint(1, 15), 16) * (Fraction(E.num(hi))
                                       - Fraction(E.num(lo))))

    def find_model(self, addto, conds, tries=12):
        """Model search with most inputs fixed to candidate values."""
        rng = random.Random(self.seed + 17)
        roots = list(self.path) + list(conds)
        fv = E.free_vars(roots)
        inpath = set(v.a for v in fv)
        for attempt in range(tries):
            fixed = {}
            order = list(fv)
            rng.shuffle(order)
            for v in order[(2 if attempt < 8 else 1):]:
                if v.op == 'bv':
                    continue
                b = self.ctx.bounds.get(v.a, (None, None, 'R'))
                lo = -3 if b[0] is None else b[0]
                hi = (lo + 6) if b[1] is None else b[1]
                if v.sort == 'I':
                    val = rng.randint(int(lo), int(hi))
                else:
                    val = Fraction(E.num(lo)) + Fraction(
                        rng.randint(0, 16), 16) * (Fraction(E.num(hi))
                                                   - Fraction(E.num(lo)))
                fixed[v] = E.const(E._norm(val))
            try:
                xs = E.subs(roots, fixed)
                s = z3.Solver()
                conv = Z3Conv()
                for c in xs:
                    s.add(conv(c))
            except (ZeroDivisionError, E.SymError):
                continue
            for a in conv.axioms:
                s.add(a)
            if self.check(solver=s, timeout=3000) == z3.sat:
                mod = s.model()
                vals = {n: self._mval(mod, n, b)
                        for n, b in self.ctx.bounds.items()
                        if n in inpath}
                for n, b in self.ctx.bounds.items():
                    if n not in inpath:
                        vals[n] = self._cand(rng, b)
                for v, c in fixed.items():
                    vals[v.a] = c.a
                return vals
        return None


def _out(lo, hi):
    """Outward rounding."""
    return (lo - abs(lo) * 1e-15 - 1e-300, hi + abs(hi) * 1e-15 + 1e-300)


def _q(c):
    if type(c) is Fraction:
        n, d = c.numerator, c.denominator
        if n < 0:
            return '(- (/ %d.0 %d.0))' % (-n, d)
        return '(/ %d.0 %d.0)' % (n, d)
    c = int(c)
    return '(- %d.0)' % -c if c < 0 else '%d.0' % c
