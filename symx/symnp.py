"""
numpy as seen by symbolically executed sfepy code.

`SA` is an ndarray subclass holding symbolic scalars that reports a float64
(or int32) dtype, overrides ufuncs that would otherwise force truth values and
numpy API functions that have no object implementation.  `proxy` replaces the
numpy module in the globals of sfepy modules: its allocation functions return
SA arrays while `ACTIVE` is set.
"""
import types
import itertools
from fractions import Fraction

import numpy as np

from . import expr as E

ACTIVE = False
_dtget = np.ndarray.dtype.__get__
F8 = np.dtype(np.float64)
I4 = np.dtype(np.int32)
B1 = np.dtype(np.bool_)


def rdt(a):
    """The real dtype."""
    return _dtget(a)


class concrete:
    """Context: float allocations are plain float arrays."""
    def __init__(self, flag=False):
        self.flag = flag

    def __enter__(self):
        global ACTIVE
        self.old = ACTIVE
        ACTIVE = self.flag

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = self.old


class SA(np.ndarray):
    _sdt = F8

    def __array_finalize__(self, obj):
        if obj is not None and type(obj) is SA:
            self._sdt = obj._sdt

    @property
    def dtype(self):
        r = _dtget(self)
        return self._sdt if r.kind == 'O' else r

    @dtype.setter
    def dtype(self, v):
        raise TypeError('dtype assignment')

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return wrap(_fill(self.shape, E.const(0)))

    def astype(self, dtype, order='K', casting='unsafe', subok=True,
               copy=True):
        dt = np.dtype(dtype)
        if _dtget(self).kind != 'O':
            return base(self).astype(dt, copy=copy)
        if dt.kind == 'O':
            return self.copy()
        if dt.kind == 'f' or dt.kind == 'c':
            o = E.to_obj(base(self))
            r = wrap(o)
            r._sdt = F8
            return r
        if dt.kind in 'iu':
            b = base(self)
            out = np.empty(self.shape, dtype=object)
            of, bf = out.reshape(-1), b.reshape(-1)
            sym = False
            for i in range(bf.shape[0]):
                v = bf[i]
                if isinstance(v, E.SymBool):
                    v = E.lift(v)
                if isinstance(v, E.Node):
                    if v.op == 'c':
                        v = int(v.a)
                    elif v.sort == 'I':
                        sym = True
                    else:
                        v = _trunc(v)
                        sym = sym or isinstance(v, E.Node)
                else:
                    v = int(v)
                of[i] = v
            if sym:
                r = wrap(out)
                r._sdt = dt
                return r
            return out.astype(dt)
        if dt.kind == 'b':
            b = base(self)
            out = np.empty(self.shape, dtype=bool)
            of, bf = out.reshape(-1), b.reshape(-1)
            for i in range(bf.shape[0]):
                of[i] = bool(bf[i])
            return out
        return base(self).astype(dt, copy=copy)

    def tolist(self):
        return base(self).tolist()

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return _ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        h = FUNCS.get(func)
        if h is not None:
            return h(*args, **kwargs)
        args = _strip(args)
        kwargs = {k: _strip(v) for k, v in kwargs.items()}
        if 'out' in kwargs and kwargs['out'] is None:
            del kwargs['out']
        return wrap(func(*args, **kwargs))

    def __getitem__(self, ii):
        ii = _index(ii)
        r = np.ndarray.__getitem__(self, ii)
        return r

    def __setitem__(self, ii, v):
        ii2 = _index(ii, symmask=True)
        if isinstance(ii2, _SymMask):
            m = ii2.m
            cur = np.ndarray.__getitem__(self, Ellipsis)
            b = base(cur)
            if (isinstance(v, np.ndarray) and v.ndim and v.size != 1) \
                    or m.ndim < b.ndim:
                ii2 = np.array([bool(x) for x in m.reshape(-1)]
                               ).reshape(m.shape)
            else:
                v0 = v
                if isinstance(v, np.ndarray):
                    v0 = v.reshape(-1)[0]
                for jj in np.ndindex(*m.shape):
                    if b[jj] is None or not np.isscalar(b[jj]) \
                            and not isinstance(b[jj], E.Node):
                        b[jj] = v0
                    else:
                        b[jj] = E.ite(E.liftb(m[jj]), v0, b[jj])
                return
        if type(v).__module__.startswith('sympy'):
            v = float(v)
        np.ndarray.__setitem__(self, ii2, _strip(v))

    def sum(self, axis=None, dtype=None, out=None, **kw):
        return wrap(np.add.reduce(base(self), axis=axis, **kw)
                    if axis is not None or self.ndim == 1
                    else np.add.reduce(base(self).ravel(), **kw))

    def mean(self, axis=None, **kw):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis, **kw) / n

    def prod(self, axis=None, **kw):
        b = base(self)
        return wrap(np.multiply.reduce(b.ravel() if axis is None else b,
                                       axis=axis or 0))

    def max(self, axis=None, **kw):
        return _red(self, axis, E.smax, **kw)

    def min(self, axis=None, **kw):
        return _red(self, axis, E.smin, **kw)

    def all(self, axis=None, **kw):
        return _red(self, axis, lambda a, b: E.band(E.liftb(a),
                                                    E.liftb(b)))

    def any(self, axis=None, **kw):
        return _red(self, axis, lambda a, b: E.bor(E.liftb(a), E.liftb(b)))

    def conj(self):
        return self

    conjugate = conj

    def item(self, *a):
        return base(self).item(*a)

    def dot(self, b, out=None):
        return _matdot(np.dot, self, b)

    def __deepcopy__(self, memo):
        return self.copy()

    def __float__(self):
        return float(base(self).item())

    def __reduce__(self):
        raise E.Concretisation('pickling of symbolic data')


class _SymMask:
    def __init__(self, m):
        self.m = m


def _index(ii, symmask=False):
    """Object index arrays -> int/bool arrays (forking)."""
    if type(ii) is tuple:
        if any(isinstance(x, (SA, E.Node)) or
               (isinstance(x, np.ndarray) and _dtget(x).kind == 'O')
               for x in ii):
            return tuple(_index(x) for x in ii)
        return ii
    if isinstance(ii, E.SymBool):
        return bool(ii)
    if isinstance(ii, E.Node):
        return ii.__index__()
    if isinstance(ii, np.ndarray) and _dtget(ii).kind == 'O':
        b = base(ii)
        f = b.reshape(-1)
        if f.size == 0:
            return b.astype(np.int64)
        if any(isinstance(x, (E.SymBool, bool, np.bool_)) for x in f):
            if symmask and any(isinstance(x, E.SymBool)
                               and x.op not in 'TF' for x in f):
                return _SymMask(b)
            return np.array([bool(x) for x in f]).reshape(b.shape)
        return np.array([int(x) for x in f], dtype=np.int64).reshape(b.shape)
    return ii


def _trunc(v):
    """(int) v for a real symbolic value: an integer symbolic value is not
    available, so fork on the possible integers."""
    d = E.DRIVER
    if d is None:
        raise E.Concretisation('int() of %s' % E.show(v, 80))
    return d.concretise_trunc(v)


def base(x):
    """View as a plain ndarray."""
    return x.view(np.ndarray) if type(x) is SA else x


def wrap(x):
    if type(x) is tuple:
        return tuple(wrap(y) for y in x)
    if type(x) is list:
        return [wrap(y) for y in x]
    if isinstance(x, np.ndarray) and type(x) is not SA \
            and _dtget(x).kind == 'O':
        r = x.view(SA)
        if x.size:
            v = x.reshape(-1)[0]
            if isinstance(v, (E.SymBool, bool, np.bool_)):
                r._sdt = B1
        return r
    return x


def _strip(x):
    t = type(x)
    if t is SA:
        return base(x)
    if t is tuple:
        return tuple(_strip(y) for y in x)
    if t is list:
        return [_strip(y) for y in x]
    return x


def _fill(shape, v):
    if not isinstance(shape, tuple):
        shape = tuple(shape) if np.iterable(shape) else (shape,)
    shape = tuple(int(s) for s in shape)
    out = np.empty(shape, dtype=object)
    out.fill(v)
    return out


def _red(x, axis, f, out=None, keepdims=False, initial=None, where=None):
    b = base(x) if isinstance(x, np.ndarray) else np.asarray(x)
    if axis is None:
        f1 = b.reshape(-1)
        if f1.size == 0:
            raise ValueError('zero-size array to reduction operation')
        r = f1[0]
        for v in f1[1:]:
            r = f(r, v)
        return r
    if isinstance(axis, tuple):
        raise E.Concretisation('reduction over a tuple of axes')
    b = np.moveaxis(b, axis, 0)
    r = b[0].copy() if b.ndim > 1 else b[0]
    for v in b[1:]:
        if b.ndim > 1:
            rr, vv = r.reshape(-1), v.reshape(-1)
            for i in range(rr.shape[0]):
                rr[i] = f(rr[i], vv[i])
            r = rr.reshape(r.shape)
        else:
            r = f(r, v)
    if keepdims:
        r = np.expand_dims(r, axis)
    return wrap(r)


_fu = np.frompyfunc


def _mkcmp(f):
    def g(a, b):
        la, lb = E.lift(a), E.lift(b)
        if la is None or lb is None:
            return NotImplemented
        return f(la, lb)
    return _fu(g, 2, 1)


def _sgn(x):
    return E.lift(x).sign()


def _fin(x):
    return True


def _fn(name):
    def g(x):
        return E.fun(name, x)
    return _fu(g, 1, 1)


def _fl(a, b):
    return E.lift(a) // E.lift(b)


def _truediv(a, b):
    """x / 0 in numpy is a warning and inf/nan."""
    return E.div(E.lift(a), E.lift(b))


UF = {
    np.less: _mkcmp(E.lt), np.less_equal: _mkcmp(E.le),
    np.greater: _mkcmp(E.gt), np.greater_equal: _mkcmp(E.ge),
    np.equal: _fu(lambda a, b: E.bnot(_bx(a, b)) if _isb(a, b)
                  else E.eq(E.lift(a), E.lift(b)), 2, 1),
    np.not_equal: _fu(lambda a, b: _bx(a, b) if _isb(a, b)
                      else E.bnot(E.eq(E.lift(a), E.lift(b))), 2, 1),
    np.logical_and: _fu(lambda a, b: E.band(E.liftb(a), E.liftb(b)), 2, 1),
    np.logical_or: _fu(lambda a, b: E.bor(E.liftb(a), E.liftb(b)), 2, 1),
    np.logical_not: _fu(lambda a: E.bnot(E.liftb(a)), 1, 1),
    np.maximum: _fu(E.smax, 2, 1), np.minimum: _fu(E.smin, 2, 1),
    np.fmax: _fu(E.smax, 2, 1), np.fmin: _fu(E.smin, 2, 1),
    np.sign: _fu(_sgn, 1, 1), np.isfinite: _fu(_fin, 1, 1),
    np.isnan: _fu(lambda x: False, 1, 1),
    np.isinf: _fu(lambda x: False, 1, 1),
    np.absolute: _fn('abs'), np.fabs: _fn('abs'),
    np.sqrt: _fn('sqrt'), np.exp: _fn('exp'), np.log: _fn('log'),
    np.sin: _fn('sin'), np.cos: _fn('cos'), np.tan: _fn('tan'),
    np.arcsin: _fn('asin'), np.arccos: _fn('acos'),
    np.arctan: _fn('atan'), np.tanh: _fn('tanh'), np.sinh: _fn('sinh'),
    np.cosh: _fn('cosh'), np.floor: _fn('floor'), np.ceil: _fn('ceil'),
    np.log10: _fn('log10'),
    np.logaddexp: _fu(lambda x, y: E.fun('log', E.fun('exp', x)
                                         + E.fun('exp', y)), 2, 1),
    np.expm1: _fu(lambda x: E.fun('exp', x) - 1, 1, 1),
    np.log1p: _fu(lambda x: E.fun('log', 1 + E.lift(x)), 1, 1),
    np.floor_divide: _fu(_fl, 2, 1),
    np.true_divide: _fu(_truediv, 2, 1),
    np.conjugate: _fu(lambda x: x, 1, 1),
    np.square: _fu(lambda x: x * x, 1, 1),
    np.reciprocal: _fu(lambda x: 1 / E.lift(x), 1, 1),
    np.invert: _fu(lambda x: E.bnot(E.liftb(x)), 1, 1),
    np.arctan2: _fu(lambda a, b: E.fun('atan2', a, b), 2, 1),
    np.hypot: _fu(lambda a, b: E.fun('sqrt', a * a + b * b), 2, 1),
    np.deg2rad: _fu(lambda a: E.lift(a) * E.rat(np.pi) / 180, 1, 1),
}


def _isb(a, b):
    return isinstance(a, E.SymBool) or isinstance(b, E.SymBool)


def _bx(a, b):
    a, b = E.liftb(a), E.liftb(b)
    return E.bor(E.band(a, E.bnot(b)), E.band(E.bnot(a), b))


CMP = {np.less, np.less_equal, np.greater, np.greater_equal, np.equal,
       np.not_equal, np.logical_and, np.logical_or, np.logical_not,
       np.isfinite, np.isnan, np.isinf}
KEEPI = {np.add, np.subtract, np.multiply, np.floor_divide, np.remainder,
         np.maximum, np.minimum, np.absolute, np.negative, np.square}


def _exactify(x):
    """Exact rationals instead of floats (0.1 -> 1/10) before an operation
    with symbolic data."""
    if type(x) is float or isinstance(x, np.floating):
        return E.const(E.rat(x)) if np.isfinite(x) else x
    if isinstance(x, np.ndarray) and _dtget(x).kind == 'f':
        f = x.reshape(-1)
        o = np.empty(f.shape, dtype=object)
        for i in range(f.shape[0]):
            v = f[i]
            o[i] = E.const(E.rat(v)) if np.isfinite(v) else v
        return o.reshape(x.shape)
    if isinstance(x, np.ndarray) and _dtget(x).kind in 'iub':
        return x.astype(object)
    return x


def _ufunc(ufunc, method, inputs, kw):
    sdts = [x._sdt for x in inputs if type(x) is SA]
    ints = all(s.kind in 'iub' for s in sdts) and all(
        (x.dtype.kind in 'iub') if isinstance(x, np.ndarray)
        else (not isinstance(x, (float, np.floating, Fraction))
              and not (isinstance(x, E.Sym) and x.sort != 'I'))
        for x in inputs if type(x) is not SA)
    ins = [_exactify(base(x)) for x in inputs]
    if method == '__call__' and any(
            isinstance(x, complex) or isinstance(x, np.complexfloating)
            or (isinstance(x, np.ndarray) and x.dtype.kind == 'c')
            for x in ins):
        raise E.Concretisation('complex arithmetic on symbolic data')
    out = kw.get('out')
    if out is not None:
        out = tuple(base(o) for o in out)
        kw = dict(kw, out=out)
    kw.pop('casting', None)
    if 'dtype' in kw:
        kw = dict(kw)
        kw.pop('dtype')
    if out is not None and method == '__call__' \
            and ufunc in (np.bitwise_and, np.bitwise_or, np.logical_and,
                          np.logical_or) and _dtget(out[0]).kind == 'b':
        # boolean arrays: fork
        cs = [np.array([bool(x) for x in np.asarray(r).reshape(-1)],
                       dtype=bool).reshape(np.shape(r)) for r in ins]
        return ufunc(*cs, out=out[0])
    u = UF.get(ufunc)
    if ufunc is np.matmul:
        if method != '__call__':
            raise E.Concretisation('matmul.' + method)
        r = np.matmul(*ins)
        if out is not None:
            out[0][...] = r
            return wrap(out[0])
        r = wrap(r)
        return r
    if method == 'at':
        tgt = ins[0]
        ufunc.at(tgt, _index(inputs[1]), *ins[2:])
        return None
    if method == 'reduce' and ufunc in (np.logical_and, np.logical_or):
        axis = kw.get('axis', 0)
        f = E.band if ufunc is np.logical_and else E.bor
        return _red(ins[0], axis, lambda a, b: f(E.liftb(a), E.liftb(b)))
    if method == 'reduce' and ufunc in (np.maximum, np.minimum):
        f = E.smax if ufunc is np.maximum else E.smin
        return _red(ins[0], kw.get('axis', 0), f)
    if u is not None and method == '__call__':
        kw.pop('where', None) if kw.get('where') is True else None
        if out is not None:
            o = out[0]
            r = u(*ins)
            o[...] = r
            return wrap(o) if _dtget(o).kind == 'O' else o
        r = u(*ins)
    else:
        r = getattr(ufunc, method)(*ins, **kw)
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    if isinstance(r, np.ndarray) and _dtget(r).kind == 'O':
        if ufunc in CMP:
            if all(isinstance(x, (bool, np.bool_)) or
                   (isinstance(x, E.SymBool) and x.op in 'TF')
                   for x in r.reshape(-1)):
                rr = np.array([(x.op == 'T' if isinstance(x, E.SymBool)
                                else bool(x)) for x in r.reshape(-1)],
                              dtype=bool)
                return rr.reshape(r.shape)
            r = r.view(SA)
            r._sdt = B1
            return r
        r = r.view(SA)
        if ints and ufunc in KEEPI and sdts:
            r._sdt = sdts[0]
        return r
    return r


# --- numpy API functions ----------------------------------------------------

FUNCS = {}


def impl(*fs):
    def deco(g):
        for f in fs:
            FUNCS[f] = g
        return g
    return deco


def issym(*xs):
    return any(_issym1(x) for x in xs)


def _issym1(x):
    if isinstance(x, E.Node) or type(x) is SA:
        return True
    if isinstance(x, np.ndarray):
        return _dtget(x).kind == 'O'
    if isinstance(x, (list, tuple)):
        return any(_issym1(y) for y in x)
    return False


def A(x):
    """Plain object array of exact symbolic values."""
    if isinstance(x, np.ndarray):
        return E.to_obj(base(x))
    return E.to_obj(np.array(_strip(x), dtype=object))


@impl(np.linalg.norm)
def norm(x, ord=None, axis=None, keepdims=False):
    if not issym(x):
        return np.linalg.norm(x, ord=ord, axis=axis, keepdims=keepdims)
    x = A(x)
    if ord is not None and ord in (np.inf, 'inf'):
        return _red(np.vectorize(lambda v: E.fun('abs', v), otypes=[object])(
            x), axis, E.smax)
    if ord == 1 and (x.ndim == 1 or isinstance(axis, int)):
        ab = np.vectorize(lambda v: E.fun('abs', v), otypes=[object])(x)
        return wrap(ab.sum(axis=axis))
    if ord not in (None, 2, 'fro'):
        raise E.Concretisation('norm ord %r' % (ord,))
    if axis is None:
        s = E.const(0)
        for v in x.reshape(-1):
            s = s + v * v
        return E.fun('sqrt', s)
    s = (x * x).sum(axis=axis, keepdims=keepdims)
    if isinstance(s, np.ndarray):
        return wrap(np.vectorize(lambda v: E.fun('sqrt', v),
                                 otypes=[object])(s))
    return E.fun('sqrt', s)


def _det(m):
    n = m.shape[0]
    if n == 0:
        return E.const(1)
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    s = E.const(0)
    for j in range(n):
        if m[0, j].op == 'c' and m[0, j].a == 0:
            continue
        mi = np.delete(m[1:], j, axis=1)
        t = m[0, j] * _det(mi)
        s = s + t if j % 2 == 0 else s - t
    return s


@impl(np.linalg.det)
def det(a):
    a = A(a)
    sh = a.shape[:-2]
    out = np.empty(sh, dtype=object)
    for ii in np.ndindex(*sh):
        out[ii] = _det(a[ii])
    return out[()] if not sh else wrap(out)


def _inv(m):
    n = m.shape[0]
    out = np.empty((n, n), dtype=object)
    if n <= 4:
        d = _det(m)
        if d.op == 'c' and d.a == 0:
            raise np.linalg.LinAlgError('Singular matrix')
        for i in range(n):
            for j in range(n):
                mi = np.delete(np.delete(m, j, axis=0), i, axis=1)
                c = _det(mi)
                out[i, j] = (c if (i + j) % 2 == 0 else -c) / d
        return out
    return _solve(m, E.to_obj(np.eye(n, dtype=int)))


def _solve(m, b):
    """Gauss-Jordan; constant nonzero pivots are preferred."""
    n = m.shape[0]
    m = m.copy()
    b = b.copy()
    for k in range(n):
        piv = None
        for i in range(k, n):
            if m[i, k].op == 'c' and m[i, k].a != 0:
                if piv is None or abs(m[i, k].a) > abs(m[piv, k].a):
                    piv = i
        if piv is None:
            for i in range(k, n):
                if not (m[i, k].op == 'c' and m[i, k].a == 0):
                    piv = i
                    break
        if piv is None:
            raise np.linalg.LinAlgError('Singular matrix')
        if piv != k:
            m[[k, piv]] = m[[piv, k]]
            b[[k, piv]] = b[[piv, k]]
        p = m[k, k]
        for j in range(n):
            m[k, j] = m[k, j] / p
        b[k] = [x / p for x in b[k]]
        for i in range(n):
            if i == k:
                continue
            f = m[i, k]
            if f.op == 'c' and f.a == 0:
                continue
            for j in range(k, n):
                m[i, j] = m[i, j] - f * m[k, j]
            for j in range(b.shape[1]):
                b[i, j] = b[i, j] - f * b[k, j]
    return b


@impl(np.linalg.inv)
def inv(a):
    a = A(a)
    sh = a.shape[:-2]
    out = np.empty(a.shape, dtype=object)
    for ii in np.ndindex(*sh):
        out[ii] = _inv(a[ii])
    return wrap(out)


@impl(np.linalg.solve)
def solve(a, b):
    a, b = A(a), A(b)
    if a.ndim != 2:
        raise E.Concretisation('stacked solve')
    b1 = b.reshape((b.shape[0], -1))
    if a.shape[0] <= 4:
        r = np.dot(_inv(a), b1)
    else:
        r = _solve(a, b1)
    return wrap(r.reshape(b.shape))


@impl(np.where)
def where(c, *ab):
    if not ab:
        return np.nonzero(_index(c) if issym(c) else c)
    a, b = ab
    if not issym(c):
        a, b = _exactify(_strip(a)), _exactify(_strip(b))
        return wrap(np.where(np.asarray(c), np.asarray(a, dtype=object),
                             np.asarray(b, dtype=object)))
    c, a, b = np.broadcast_arrays(_strip(np.asarray(c)),
                                  np.asarray(_strip(a), dtype=object),
                                  np.asarray(_strip(b), dtype=object))
    out = np.empty(c.shape, dtype=object)
    for ii in np.ndindex(*c.shape):
        x = c[ii]
        out[ii] = E.ite(E.liftb(x), a[ii], b[ii])
    return wrap(out)


@impl(np.allclose)
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = np.broadcast_arrays(A(a), A(b))
    rt, at = E.const(E.rat(rtol)), E.const(E.rat(atol))
    r = E.btrue()
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        r = E.band(r, E.le(E.fun('abs', x - y), at + rt * E.fun('abs', y)))
    return r


@impl(np.isclose)
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = np.broadcast_arrays(A(a), A(b))
    rt, at = E.const(E.rat(rtol)), E.const(E.rat(atol))
    out = np.empty(a.shape, dtype=object)
    for ii in np.ndindex(*a.shape):
        x, y = a[ii], b[ii]
        out[ii] = E.le(E.fun('abs', x - y), at + rt * E.fun('abs', y))
    return wrap(out) if out.ndim else out[()]


@impl(np.array_equal)
def array_equal(a, b, equal_nan=False):
    a, b = np.asarray(_strip(a)), np.asarray(_strip(b))
    if a.shape != b.shape:
        return False
    return E.conj(E.eq(x, y) for x, y in zip(A(a).reshape(-1),
                                             A(b).reshape(-1)))


@impl(np.all)
def all_(a, axis=None, **kw):
    return _red(_arr(a), axis, lambda x, y: E.band(E.liftb(x), E.liftb(y))) \
        if np.size(a) else True


@impl(np.any)
def any_(a, axis=None, **kw):
    return _red(_arr(a), axis, lambda x, y: E.bor(E.liftb(x), E.liftb(y))) \
        if np.size(a) else False


def _arr(a):
    return base(a) if isinstance(a, np.ndarray) else np.asarray(_strip(a))


@impl(np.max, np.amax, np.nanmax)
def amax(a, axis=None, **kw):
    return _red(_arr(a), axis, E.smax, **kw)


@impl(np.min, np.amin, np.nanmin)
def amin(a, axis=None, **kw):
    return _red(_arr(a), axis, E.smin, **kw)


def _matdot(f, a, b):
    r = f(_exactify(_strip(a)), _exactify(_strip(b)))
    return wrap(r)


@impl(np.dot)
def dot(a, b, out=None):
    r = _matdot(np.dot, a, b)
    if out is not None:
        out[...] = r
        return out
    return r


@impl(np.einsum)
def einsum(*args, **kw):
    out = kw.pop('out', None)
    kw.pop('dtype', None)
    kw['optimize'] = False
    args = [x if isinstance(x, (str, list)) else
            _exactify(np.asarray(_strip(x))) for x in args]
    args = [x.astype(object) if isinstance(x, np.ndarray) else x
            for x in args]
    r = np.einsum(*args, **kw)
    if out is not None:
        out[...] = r
        return out
    if isinstance(r, np.ndarray):
        return wrap(np.ascontiguousarray(r)) if r.ndim else r.item()
    return r


@impl(np.zeros_like)
def zeros_like(a, dtype=None, order='K', subok=True, shape=None):
    return _alloc(a, dtype, shape, E.const(0), np.zeros_like)


@impl(np.ones_like)
def ones_like(a, dtype=None, order='K', subok=True, shape=None):
    return _alloc(a, dtype, shape, E.const(1), np.ones_like)


@impl(np.empty_like)
def empty_like(a, dtype=None, order='K', subok=True, shape=None):
    return _alloc(a, dtype, shape, None, np.empty_like)


@impl(np.full_like)
def full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None):
    return _alloc(a, dtype, shape, fill_value, None)


def _alloc(a, dtype, shape, v, f):
    dt = np.dtype(dtype) if dtype is not None else a.dtype
    sh = a.shape if shape is None else shape
    if dt.kind in 'fO':
        return wrap(_fill(sh, v))
    if v is None:
        return np.empty(sh, dtype=dt)
    return np.full(sh, int(v.a) if isinstance(v, E.Node) else v, dtype=dt)


@impl(np.real)
def real(x):
    return x


@impl(np.imag)
def imag(x):
    return zeros_like(x)


@impl(np.iscomplexobj)
def iscomplexobj(x):
    return False


@impl(np.isrealobj)
def isrealobj(x):
    return True


@impl(np.isscalar)
def isscalar(x):
    return isinstance(x, E.Node) or np.isscalar(x)


@impl(np.round, np.around)
def around(a, decimals=0, out=None):
    raise E.Concretisation('rounding of symbolic data')


@impl(np.average)
def average(a, axis=None, weights=None, returned=False):
    if weights is None:
        return mean(a, axis)
    w = np.asarray(_strip(weights))
    a = A(a)
    if axis is not None and w.ndim != a.ndim:
        sh = [1] * a.ndim
        sh[axis] = -1
        w = w.reshape(sh)
    return wrap((a * w).sum(axis=axis) / (w * np.ones(a.shape, int)
                                          ).sum(axis=axis))


@impl(np.mean)
def mean(a, axis=None, **kw):
    return wrap(A(a)).mean(axis=axis)


@impl(np.sum)
def sum_(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    r = wrap(_arr(a)).sum(axis=axis, keepdims=keepdims)
    if out is not None:
        out[...] = r
        return out
    return r


@impl(np.count_nonzero)
def count_nonzero(a, axis=None):
    return np.count_nonzero(_index(a), axis=axis)


@impl(np.nonzero)
def nonzero(a):
    if a.dtype.kind == 'b':
        return np.nonzero(_index(a))
    return np.nonzero(_index(a != 0))


@impl(np.interp)
def interp(x, xp, fp, **kw):
    raise E.Concretisation('interp')


@impl(np.isnan)
def isnan(x):
    return np.zeros(np.shape(x), bool)


@impl(np.trace)
def trace(a, offset=0, axis1=0, axis2=1, **kw):
    return wrap(np.trace(base(a), axis1=axis1, axis2=axis2))


@impl(np.tensordot)
def tensordot(a, b, axes=2):
    return wrap(np.tensordot(_exactify(_strip(a)), _exactify(_strip(b)),
                             axes=axes))


@impl(np.linalg.matrix_power)
def matrix_power(a, n):
    r = a
    for _ in range(n - 1):
        r = dot(r, a)
    return r


@impl(np.linalg.eigh)
def eigh(a, UPLO='L'):
    """Diagonal matrices only; sorting forks on the path."""
    x = np.asarray(_strip(a))
    n = x.shape[-1]
    w = np.empty(x.shape[:-1], dtype=object)
    v = np.zeros(x.shape, dtype=object)
    for ii in np.ndindex(*x.shape[:-2]):
        m = x[ii]
        for r in range(n):
            for c in range(n):
                if r != c:
                    z = E.lift(m[r, c])
                    if not (z.op == 'c' and z.a == 0):
                        raise E.Concretisation(
                            'numpy.linalg.eigh of symbolic data')
        order = list(range(n))
        for i in range(1, n):
            j = i
            while j > 0 and bool(E.lt(E.lift(m[order[j], order[j]]),
                                      E.lift(m[order[j - 1],
                                               order[j - 1]]))):
                order[j], order[j - 1] = order[j - 1], order[j]
                j -= 1
        for k, o in enumerate(order):
            w[ii + (k,)] = m[o, o]
            v[ii + (o, k)] = 1
    from collections import namedtuple
    return namedtuple('EighResult', 'eigenvalues eigenvectors')(wrap(w),
                                                                wrap(v))


for _n in ('eig', 'svd', 'qr', 'eigvals', 'eigvalsh', 'lstsq',
           'pinv', 'matrix_rank', 'cholesky'):
    def _mk(name):
        def g(*a, **k):
            raise E.Concretisation('numpy.linalg.%s of symbolic data' % name)
        return g
    FUNCS[getattr(np.linalg, _n)] = _mk(_n)


# --- proxy module -------------------------------------------------------------

def _isf(dtype):
    if dtype is None:
        return True
    try:
        dt = np.dtype(dtype)
    except TypeError:
        return False
    return dt.kind == 'f' or dt.kind == 'O'


def p_zeros(shape, dtype=float, order='C', **kw):
    if ACTIVE and _isf(dtype):
        return wrap(_fill(shape, E.const(0)))
    return np.zeros(_shape(shape), dtype, order=order)


def p_ones(shape, dtype=None, order='C', **kw):
    if ACTIVE and _isf(dtype):
        return wrap(_fill(shape, E.const(1)))
    return np.ones(_shape(shape), dtype, order=order)


def p_empty(shape, dtype=float, order='C', **kw):
    if ACTIVE and _isf(dtype):
        return wrap(_fill(shape, None))
    return np.empty(_shape(shape), dtype, order=order)


def p_full(shape, fill_value, dtype=None, order='C', **kw):
    if ACTIVE and (issym(fill_value) or (dtype is not None and _isf(dtype))
                   or isinstance(fill_value, float)):
        o = _fill(shape, None)
        o[...] = A(fill_value) if np.ndim(fill_value) else E.lift(
            fill_value if not isinstance(fill_value, np.ndarray)
            else base(fill_value).item()) if _finite(fill_value) \
            else fill_value
        return wrap(o)
    return np.full(_shape(shape), fill_value, dtype, order=order)


def _finite(v):
    return not (isinstance(v, float) and not np.isfinite(v))


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    return s


def _like(f, g):
    def h(a, dtype=None, *args, **kw):
        if ACTIVE and (issym(a) or _isf(dtype if dtype is not None
                                        else np.asarray(a).dtype)):
            a = a if isinstance(a, np.ndarray) else np.asarray(a)
            return g(a, dtype, *args, **kw)
        return f(a, dtype, *args, **kw)
    return h


def p_eye(N, M=None, k=0, dtype=float, **kw):
    if ACTIVE and _isf(dtype):
        return wrap(E.to_obj(np.eye(N, M, k, dtype=np.int64)))
    return np.eye(N, M, k, dtype=dtype)


def p_identity(n, dtype=float, **kw):
    return p_eye(n, dtype=dtype)


def p_array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, **kw):
    if getattr(type(x), '__sx_array__', False) and ndmin < 2:
        return x.copy() if dtype is None else x.astype(dtype)
    if not issym(x):
        return np.array(x, dtype, copy=copy, order=order, subok=subok,
                        ndmin=ndmin)
    return _toarr(x, dtype, copy, ndmin, order)


def _toarr(x, dtype, copy, ndmin=0, order='K'):
    sd = x._sdt if type(x) is SA else None
    if isinstance(x, np.ndarray):
        b = base(x)
        if _dtget(b).kind == 'O' and order == 'C' \
                and not b.flags.c_contiguous:
            b = np.ascontiguousarray(b)
            copy = False
        if copy:
            b = b.copy(order='C' if order in ('C', 'K') else order)
    elif isinstance(x, E.Node):
        b = np.empty((), dtype=object)
        b[()] = x
    else:
        b = np.array(_strip(x), dtype=object)
    while b.ndim < ndmin:
        b = b[None]
    if dtype is not None and np.dtype(dtype).kind in 'iub':
        if sd is not None and sd == np.dtype(dtype):
            r = wrap(b)
            r._sdt = sd
            return r
        return wrap(b).astype(dtype)
    if dtype is not None and np.dtype(dtype).kind == 'c':
        pass
    r = wrap(b)
    if type(r) is SA:
        if dtype is not None and np.dtype(dtype).kind == 'f':
            r._sdt = F8
        elif sd is not None:
            r._sdt = sd
        elif r.size and not isinstance(x, np.ndarray):
            if all(isinstance(v, (int, np.integer))
                   or (isinstance(v, E.Sym) and v.sort == 'I'
                       and v.op != 'c') for v in b.reshape(-1)):
                r._sdt = np.dtype(np.int64)
    return r


def p_asarray(x, dtype=None, order=None, **kw):
    if getattr(type(x), '__sx_array__', False):
        return x if dtype is None else x.astype(dtype)
    if not issym(x):
        return np.asarray(x, dtype, order=order)
    return _toarr(x, dtype, False, order=order or 'K')


def p_ascontiguousarray(x, dtype=None, **kw):
    if getattr(type(x), '__sx_array__', False):
        return x if dtype is None else x.astype(dtype)
    if not issym(x):
        return np.ascontiguousarray(x, dtype)
    r = _toarr(x, dtype, False)
    if type(r) is SA and not r.flags.c_contiguous:
        s = r._sdt
        r = wrap(np.ascontiguousarray(base(r)))
        r._sdt = s
    if r.ndim == 0:
        r = r.reshape(1)
    return r


def p_atleast(n, f):
    def g(*xs):
        if not issym(*xs):
            return f(*xs)
        r = [f(_strip(x) if isinstance(x, np.ndarray) else p_asarray(x))
             for x in xs]
        r = [wrap(x) for x in r]
        return r[0] if len(r) == 1 else r
    return g


def _via(f, g):
    """Use the symbolic implementation g if any argument is symbolic."""
    def h(*a, **k):
        if issym(*a) or (k and issym(*k.values())):
            return g(*a, **k)
        return f(*a, **k)
    return h


def _uvia(uf):
    class U:
        def __call__(self, *a, **k):
            if issym(*a):
                a = [x if isinstance(x, (np.ndarray, E.Node, int, float))
                     else p_asarray(x) for x in a]
                r = _ufunc(uf, '__call__', [wrap(x) if isinstance(
                    x, np.ndarray) else x for x in a], k)
                return r
            return uf(*a, **k)

        def __getattr__(self, name):
            return getattr(uf, name)
    return U()


def _gen(f):
    """Generic API function: symbolic lists converted to object arrays."""
    def h(*a, **k):
        if issym(*a):
            return wrap(f(*_strip(a), **{x: _strip(y)
                                         for x, y in k.items()}))
        return f(*a, **k)
    return h


class Proxy(types.ModuleType):
    def __init__(self, real, over):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__['_real'], name)


_lin = {n: _via(getattr(np.linalg, n), FUNCS[getattr(np.linalg, n)])
        for n in ('norm', 'det', 'inv', 'solve', 'eig', 'eigh', 'svd', 'qr',
                  'eigvals', 'eigvalsh', 'lstsq', 'pinv', 'matrix_rank',
                  'cholesky', 'matrix_power')}
linalg = Proxy(np.linalg, _lin)

OVER = dict(
    zeros=p_zeros, ones=p_ones, empty=p_empty, full=p_full, eye=p_eye,
    identity=p_identity, array=p_array, asarray=p_asarray,
    ascontiguousarray=p_ascontiguousarray, asanyarray=p_asarray,
    require=lambda a, dtype=None, requirements=None, **k:
        p_ascontiguousarray(a, dtype),
    zeros_like=_like(np.zeros_like, zeros_like),
    ones_like=_like(np.ones_like, ones_like),
    empty_like=_like(np.empty_like, empty_like),
    full_like=lambda a, v, dtype=None, **k: (
        full_like(np.asarray(a), v, dtype)
        if ACTIVE and (issym(a, v) or _isf(dtype or np.asarray(a).dtype))
        else np.full_like(a, v, dtype)),
    atleast_1d=p_atleast(1, np.atleast_1d),
    atleast_2d=p_atleast(2, np.atleast_2d),
    atleast_3d=p_atleast(3, np.atleast_3d),
    linalg=linalg,
)
for _f, _g in list(FUNCS.items()):
    _nm = _f.__name__
    if getattr(np, _nm, None) is _f and _nm not in OVER:
        OVER[_nm] = _via(_f, _g)
for _al in ('amax', 'amin', 'max', 'min', 'around', 'round'):
    if _al not in OVER:
        OVER[_al] = _via(getattr(np, _al), FUNCS[getattr(np, _al)])
for _uf in UF:
    for _nm in (_uf.__name__,):
        if getattr(np, _nm, None) is _uf:
            OVER[_nm] = _uvia(_uf)
OVER['result_type'] = lambda *a: np.result_type(*[
    F8 if issym(x) or (isinstance(x, np.dtype) and x.kind == 'O') else x
    for x in a])
OVER['abs'] = OVER['absolute']
OVER['divide'] = OVER['true_divide'] = _uvia(np.true_divide)
for _nm in ('concatenate', 'vstack', 'hstack', 'stack', 'column_stack',
            'r_', 'c_', 'outer', 'cross', 'inner', 'kron', 'vdot', 'tile',
            'repeat', 'cumsum', 'prod', 'cumprod', 'diff', 'roll',
            'transpose', 'squeeze', 'append', 'insert', 'delete', 'block',
            'diag', 'tril', 'triu', 'broadcast_to', 'moveaxis', 'rollaxis',
            'swapaxes', 'ravel', 'reshape', 'flip', 'take', 'expand_dims',
            'rot90', 'dstack', 'polyval'):
    if _nm in ('r_', 'c_'):
        continue
    OVER[_nm] = _gen(getattr(np, _nm))


class _RC:
    def __init__(self, rc):
        self.rc = rc

    def __getitem__(self, key):
        keys = key if isinstance(key, tuple) else (key,)
        if issym(*keys):
            if self.rc is np.r_:
                parts = []
                for k in keys:
                    if isinstance(k, slice):
                        parts.append(np.r_[k].astype(object))
                    else:
                        parts.append(np.atleast_1d(_strip(p_asarray(k))))
                return wrap(np.concatenate(parts))
            return wrap(self.rc[tuple(_strip(
                p_asarray(k) if not isinstance(k, (slice, str)) else k)
                for k in keys)])
        return self.rc[key]


OVER['r_'] = _RC(np.r_)
OVER['c_'] = _RC(np.c_)
proxy = Proxy(np, OVER)

BYFUN = {}
for _nm, _v in OVER.items():
    if hasattr(np, _nm) and callable(getattr(np, _nm)):
        BYFUN[id(getattr(np, _nm))] = _v
for _nm, _v in _lin.items():
    BYFUN[id(getattr(np.linalg, _nm))] = _v


def patch_module(mod):
    """Replace numpy in the globals of a module."""
    d = mod.__dict__
    for k, v in list(d.items()):
        if v is np:
            d[k] = proxy
        elif v is np.linalg:
            d[k] = linalg
        elif callable(v) and id(v) in BYFUN and not isinstance(v, type):
            d[k] = BYFUN[id(v)]
