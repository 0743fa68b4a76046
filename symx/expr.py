"""
Hash-consed symbolic scalars.

`Sym` objects stand for real (sort 'R') or mathematical-integer (sort 'I')
values, `SymBool` for truth values.  They are put into numpy object arrays and
fed to the real code; branching on a SymBool asks the active path driver
(see driver.py), i.e. the SMT solver, which way(s) the branch can go.

Floating point constants are abstracted to rationals: the simplest rational
that rounds to the same double if it has a small denominator (0.1 -> 1/10),
the exact binary value otherwise.
"""
from fractions import Fraction
import sys
import dis
import math
import numbers
import numpy as np

_table = {}
_nodes = []
DRIVER = None  # Set by driver.py.


class SymError(Exception):
    pass


class Concretisation(SymError):
    pass


def reset():
    _table.clear()
    _nodes.clear()
    _ratcache.clear()


_ratcache = {}


def rat(x):
    """Double -> exact number (int or Fraction)."""
    x = float(x)
    r = _ratcache.get(x)
    if r is not None:
        return r
    if x != x or x in (math.inf, -math.inf):
        raise SymError('non-finite constant %r' % x)
    fr = Fraction(x)
    if fr.denominator == 1:
        r = fr.numerator
    else:
        ap = fr.limit_denominator(5040)
        if float(ap) == x and ap != 0:
            r = ap
        else:
            r = fr
        if isinstance(r, Fraction) and r.denominator == 1:
            r = r.numerator
    if len(_ratcache) < 200000:
        _ratcache[x] = r
    return r


def num(x):
    """Python/numpy number -> int or Fraction, None if not a number."""
    t = type(x)
    if t is int or t is Fraction:
        return x
    if t is float or t is np.float64:
        return rat(x)
    if t is bool or t is np.bool_:
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return rat(float(x))
    if isinstance(x, Fraction):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return num(x.item()) if x.dtype != object else num(x[()])
    return None


def _norm(v):
    if type(v) is Fraction and v.denominator == 1:
        return v.numerator
    return v


class Node:
    __slots__ = ('op', 'a', 'sort', 'i', '__weakref__')

    def __hash__(self):
        return self.i


def _mk(cls, op, a, sort, key):
    n = _table.get(key)
    if n is None:
        n = cls.__new__(cls)
        n.op = op
        n.a = a
        n.sort = sort
        n.i = len(_nodes)
        _nodes.append(n)
        _table[key] = n
    return n


def const(v):
    v = _norm(v)
    return _mk(Sym, 'c', v, 'I' if type(v) is int else 'R', ('c', v))


def var(name, sort='R'):
    return _mk(Sym, 'v', name, sort, ('v', name, sort))


def boolvar(name):
    return _mk(SymBool, 'bv', name, 'B', ('bv', name))


def lift(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return ite(x, const(1), const(0))
    v = num(x)
    if v is None:
        return None
    return const(v)


def is_const(x):
    return x.op == 'c'


def _js(a, b):
    return 'I' if (a.sort == 'I' and b.sort == 'I') else 'R'


def add(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return const(a.a + b.a)
        if a.a == 0:
            return b
        a, b = b, a
    if b.op == 'c' and b.a == 0:
        return a
    if a.i > b.i and b.op != 'c':
        a, b = b, a
    if b.op == 'c' and a.op == '+' and a.a[1].op == 'c':
        return add(a.a[0], const(a.a[1].a + b.a))
    return _mk(Sym, '+', (a, b), _js(a, b), ('+', a.i, b.i))


def mul(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return const(a.a * b.a)
        v = a.a
        if v == 0:
            return a
        if v == 1:
            return b
    elif b.op == 'c':
        v = b.a
        if v == 0:
            return b
        if v == 1:
            return a
        a, b = b, a
    elif a.i > b.i:
        a, b = b, a
    # constant, if any, is first
    if a.op == 'c' and b.op == '*' and b.a[0].op == 'c':
        return mul(const(a.a * b.a[0].a), b.a[1])
    return _mk(Sym, '*', (a, b), _js(a, b), ('*', a.i, b.i))


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    if a is b:
        return const(0)
    return add(a, neg(b))


def div(a, b):
    if b.op == 'c':
        if b.a == 0:
            raise ZeroDivisionError('symbolic division by constant zero')
        return mul(const(Fraction(1) / b.a), a)
    if a.op == 'c' and a.a == 0:
        return a
    if a is b:
        return const(1)
    return _mk(Sym, '/', (a, b), 'R', ('/', a.i, b.i))


def fdiv_int(a, b):
    """Floor division of integers."""
    if a.op == 'c' and b.op == 'c':
        return const(a.a // b.a)
    return _mk(Sym, '//', (a, b), 'I', ('//', a.i, b.i))


def mod_int(a, b):
    if a.op == 'c' and b.op == 'c':
        return const(a.a % b.a)
    return _mk(Sym, '%', (a, b), 'I', ('%', a.i, b.i))


def powi(a, n):
    if n == 0:
        return const(1)
    if n == 1:
        return a
    if a.op == 'c':
        return const(Fraction(a.a) ** n)
    if n < 0:
        return div(const(1), powi(a, -n))
    return _mk(Sym, '^', (a, n), a.sort, ('^', a.i, n))


def fun(name, *args):
    args = tuple(lift(x) for x in args)
    if all(x.op == 'c' for x in args):
        r = _fold_fun(name, args)
        if r is not None:
            return r
    if name == 'exp':
        a, k = args[0], Fraction(1)
        if a.op == '*' and a.a[0].op == 'c':
            k, a = Fraction(a.a[0].a), a.a[1]
        elif a.op == '*' and a.a[1].op == 'c':
            k, a = Fraction(a.a[1].a), a.a[0]
        elif a.op == '-' and len(a.a) == 1:
            k, a = Fraction(-1), a.a[0]
        if getattr(a, 'op', '') == 'f' and a.a[0] == 'log':
            q = k.limit_denominator(12)
            if abs(q - k) < Fraction(1, 10**14):
                return power(a.a[1], const(q))
    if name in ('sin', 'cos'):
        # sin, cos of inverse functions
        a, sg = args[0], 1
        if a.op == '*' and a.a[0].op == 'c' and a.a[0].a == -1:
            a, sg = a.a[1], -1
        elif a.op == '*' and a.a[1].op == 'c' and a.a[1].a == -1:
            a, sg = a.a[0], -1
        if a.op == 'f' and a.a[0] == 'atan2':
            y, x = a.a[1:]
            r = fun('sqrt', add(mul(x, x), mul(y, y)))
            return div(x, r) if name == 'cos' else div(mul(const(sg), y), r)
        if a.op == 'f' and a.a[0] == 'acos':
            x = a.a[1]
            if name == 'cos':
                return x
            return mul(const(sg), fun('sqrt', sub(const(1), mul(x, x))))
    if name == 'abs' :
        a = args[0]
        return ite(ge(a, const(0)), a, neg(a))
    if name == 'sqrt':
        a = args[0]
        if a.op == '^' and a.a[1] == 2:
            return fun('abs', a.a[0])
        if a.op == '*' and a.a[0] is a.a[1]:
            return fun('abs', a.a[0])
    return _mk(Sym, 'f', (name,) + args, 'R',
               ('f', name) + tuple(x.i for x in args))


_FUNS = {
    'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos,
    'tan': math.tan, 'asin': math.asin, 'acos': math.acos,
    'atan': math.atan, 'sinh': math.sinh, 'cosh': math.cosh,
    'tanh': math.tanh, 'sqrt': math.sqrt, 'atan2': math.atan2,
    'pow': math.pow, 'abs': abs, 'log10': math.log10,
    'floor': math.floor, 'ceil': math.ceil,
}


def _isqrt(v):
    v = Fraction(v)
    if v < 0:
        raise SymError('sqrt of a negative constant %r' % v)
    n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
    if n * n == v.numerator and d * d == v.denominator:
        return Fraction(n, d)
    return None


def _fold_fun(name, args):
    vals = [x.a for x in args]
    if name == 'abs':
        return const(abs(vals[0]))
    if name == 'sqrt':
        r = _isqrt(vals[0])
        if r is not None:
            return const(r)
        return const(rat(math.sqrt(vals[0])))
    if name in ('floor', 'ceil'):
        return const(getattr(math, name)(vals[0]))
    if name == 'pow':
        if type(vals[1]) is int and abs(vals[1]) < 64:
            return const(Fraction(vals[0]) ** vals[1])
    if name == 'exp' and vals[0] == 0:
        return const(1)
    if name in _FUNS:
        return const(rat(_FUNS[name](*[float(v) for v in vals])))
    return None


def power(a, b):
    """General power."""
    if b.op == 'c':
        if type(b.a) is int:
            return powi(a, b.a)
        f = Fraction(b.a)
        if f.denominator == 2:
            s = fun('sqrt', a)
            return powi(s, f.numerator)
        if f.denominator == 1:
            return powi(a, f.numerator)
        # a^(p/q) = (a^(1/q))^p
        if f.denominator <= 12:
            return powi(fun('pow', a, const(Fraction(1, f.denominator))),
                        f.numerator)
    return fun('pow', a, b)


# --- booleans -------------------------------------------------------------

def _b(op, a, key):
    return _mk(SymBool, op, a, 'B', key)


def btrue():
    return _b('T', (), ('T',))


def bfalse():
    return _b('F', (), ('F',))


def lt(a, b):
    if a is b:
        return bfalse()
    if a.op == 'c' and b.op == 'c':
        return btrue() if a.a < b.a else bfalse()
    return _b('<', (a, b), ('<', a.i, b.i))


def le(a, b):
    if a is b:
        return btrue()
    if a.op == 'c' and b.op == 'c':
        return btrue() if a.a <= b.a else bfalse()
    return _b('<=', (a, b), ('<=', a.i, b.i))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a is b:
        return btrue()
    if a.op == 'c' and b.op == 'c':
        return btrue() if a.a == b.a else bfalse()
    if a.i > b.i:
        a, b = b, a
    return _b('=', (a, b), ('=', a.i, b.i))


def bnot(a):
    if a.op == 'T':
        return bfalse()
    if a.op == 'F':
        return btrue()
    if a.op == 'not':
        return a.a[0]
    return _b('not', (a,), ('not', a.i))


def band(a, b):
    if a.op == 'T':
        return b
    if b.op == 'T' or a is b:
        return a
    if a.op == 'F' or b.op == 'F':
        return bfalse()
    return _b('and', (a, b), ('and', a.i, b.i))


def bor(a, b):
    if a.op == 'F':
        return b
    if b.op == 'F' or a is b:
        return a
    if a.op == 'T' or b.op == 'T':
        return btrue()
    return _b('or', (a, b), ('or', a.i, b.i))


def ite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    a, b = lift(a), lift(b)
    if c.op == 'T' or a is b:
        return a
    if c.op == 'F':
        return b
    return _mk(Sym, 'ite', (c, a, b), _js(a, b), ('ite', c.i, a.i, b.i))


def liftb(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (bool, np.bool_, int)):
        return btrue() if x else bfalse()
    if isinstance(x, Sym):
        return bnot(eq(x, const(0)))
    raise SymError('cannot convert %r to bool' % (x,))


def conj(xs):
    r = btrue()
    for x in xs:
        r = band(r, liftb(x))
    return r


def disj(xs):
    r = bfalse()
    for x in xs:
        r = bor(r, liftb(x))
    return r


def _arr(x):
    return isinstance(x, np.ndarray) and x.ndim > 0


def _bin(f):
    def g(self, other):
        if _arr(other):
            return NotImplemented
        o = lift(other)
        if o is None:
            return NotImplemented
        return f(self, o)
    return g


def _rbin(f):
    def g(self, other):
        if _arr(other):
            return NotImplemented
        o = lift(other)
        if o is None:
            return NotImplemented
        return f(o, self)
    return g


_BINOP = dis.opmap.get('BINARY_OP')


def _formatting(frame):
    """True if the frame executes `text % values`: the numbers in messages
    are not modelled."""
    code = frame.f_code.co_code
    k = frame.f_lasti
    return code[k] == _BINOP and code[k + 1] in (6, 19)


class SymBool(Node):
    __slots__ = ()
    __hash__ = Node.__hash__

    def __bool__(self):
        if self.op == 'T':
            return True
        if self.op == 'F':
            return False
        if DRIVER is None:
            raise Concretisation('branch on a symbolic condition without '
                                 'a driver: %s' % show(self))
        return DRIVER.fork(self)

    def __and__(self, o):
        if _arr(o):
            return NotImplemented
        return band(self, liftb(o))
    __rand__ = __and__

    def __or__(self, o):
        if _arr(o):
            return NotImplemented
        return bor(self, liftb(o))
    __ror__ = __or__

    def __xor__(self, o):
        if _arr(o):
            return NotImplemented
        o = liftb(o)
        return bor(band(self, bnot(o)), band(bnot(self), o))
    __rxor__ = __xor__

    def __invert__(self):
        return bnot(self)

    def logical_not(self):
        return bnot(self)

    def __eq__(self, o):
        if _arr(o):
            return NotImplemented
        try:
            o = liftb(o)
        except SymError:
            return NotImplemented
        return bnot(self ^ o)

    def __ne__(self, o):
        if _arr(o):
            return NotImplemented
        return self ^ liftb(o)

    def _l(self):
        return ite(self, const(1), const(0))

    def __add__(self, o):
        return self._l() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._l() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._l() - o

    def __rsub__(self, o):
        return o - self._l()

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return 'B<%s>' % show(self, 120)


class Sym(Node):
    __slots__ = ()
    __hash__ = Node.__hash__

    def squeeze(self, axis=None):
        return self

    def item(self, *args):
        return self

    def copy(self, order=None):
        return self

    __add__ = _bin(add)
    __radd__ = _rbin(add)
    __sub__ = _bin(sub)
    __rsub__ = _rbin(sub)
    __mul__ = _bin(mul)
    __rmul__ = _rbin(mul)
    __truediv__ = _bin(div)
    __rtruediv__ = _rbin(div)
    __lt__ = _bin(lt)
    __le__ = _bin(le)
    __gt__ = _bin(gt)
    __ge__ = _bin(ge)

    def __eq__(self, other):
        if _arr(other):
            return NotImplemented
        if other is None:
            return False
        o = lift(other)
        if o is None:
            return NotImplemented
        return eq(self, o)

    def __ne__(self, other):
        if _arr(other):
            return NotImplemented
        if other is None:
            return True
        o = lift(other)
        if o is None:
            return NotImplemented
        return bnot(eq(self, o))

    def __floordiv__(self, o):
        if _arr(o):
            return NotImplemented
        o = lift(o)
        if self.sort == 'I' and o.sort == 'I':
            return fdiv_int(self, o)
        return fun('floor', div(self, o))

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __mod__(self, o):
        if _arr(o):
            return NotImplemented
        o = lift(o)
        if self.sort == 'I' and o.sort == 'I':
            return mod_int(self, o)
        return self - o * fun('floor', div(self, o))

    def __rmod__(self, o):
        return lift(o) % self

    def __pow__(self, o):
        if _arr(o):
            return NotImplemented
        o = lift(o)
        if o is None:
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        return power(lift(o), self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return fun('abs', self)

    def __bool__(self):
        if self.op == 'c':
            return self.a != 0
        return bool(bnot(eq(self, const(0))))

    def __float__(self):
        if self.op == 'c':
            return float(self.a)
        if _formatting(sys._getframe(1)):
            return 0.0
        raise Concretisation('float() of symbolic value %s' % show(self, 200))

    def __index__(self):
        if self.op == 'c' and type(self.a) is int:
            return self.a
        if self.sort != 'I':
            raise TypeError('index from a real symbolic value %s'
                            % show(self, 100))
        if DRIVER is None:
            raise Concretisation('index from %s' % show(self))
        return DRIVER.concretise_int(self)

    def __int__(self):
        if self.op == 'c':
            return int(self.a)
        if _formatting(sys._getframe(1)):
            return 0
        if self.sort != 'I' and DRIVER is not None:
            return DRIVER.concretise_trunc(self)
        return self.__index__()

    def __round__(self, n=None):
        if self.op == 'c':
            return round(self.a, n)
        if n is None and DRIVER is not None:
            return DRIVER.concretise_round(self)
        raise Concretisation('round')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy ufunc methods on object arrays
    def sqrt(self): return fun('sqrt', self)
    def exp(self): return fun('exp', self)
    def log(self): return fun('log', self)
    def log10(self): return fun('log10', self)
    def sin(self): return fun('sin', self)
    def cos(self): return fun('cos', self)
    def tan(self): return fun('tan', self)
    def arcsin(self): return fun('asin', self)
    def arccos(self): return fun('acos', self)
    def arctan(self): return fun('atan', self)
    def sinh(self): return fun('sinh', self)
    def cosh(self): return fun('cosh', self)
    def tanh(self): return fun('tanh', self)
    def arctan2(self, o): return fun('atan2', self, o)
    def floor(self): return fun('floor', self)
    def ceil(self): return fun('ceil', self)
    def conjugate(self): return self
    def conj(self): return self
    def isfinite(self): return True
    def isnan(self): return False
    def square(self): return mul(self, self)
    def __floor__(self): return fun('floor', self)
    def __ceil__(self): return fun('ceil', self)

    def sign(self):
        return ite(gt(self, const(0)), const(1),
                   ite(lt(self, const(0)), const(-1), const(0)))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return const(0)

    def item(self):
        return self

    def __repr__(self):
        return 'S<%s>' % show(self, 120)

    def __format__(self, spec):
        if self.op == 'c':
            try:
                return format(float(self.a), spec)
            except ValueError:
                return format(self.a, spec)
        return show(self, 60)


numbers.Number.register(Sym)


def smin(a, b):
    a, b = lift(a), lift(b)
    return ite(le(a, b), a, b)


def smax(a, b):
    a, b = lift(a), lift(b)
    return ite(ge(a, b), a, b)


def show(n, limit=400):
    out = []
    size = [0]

    def put(s):
        out.append(s)
        size[0] += len(s)

    def rec(n, depth):
        if size[0] > limit or depth > 40:
            put('..')
            return
        if n.op == 'c':
            v = n.a
            if type(v) is Fraction and v.denominator > 100000:
                put('%.6g' % float(v))
            else:
                put(str(v))
        elif n.op in ('v', 'bv'):
            put(str(n.a))
        elif n.op in ('T', 'F'):
            put(n.op)
        elif n.op == '^':
            rec(n.a[0], depth + 1)
            put('^%d' % n.a[1])
        elif n.op == 'f':
            put(n.a[0] + '(')
            for x in n.a[1:]:
                rec(x, depth + 1)
                put(',')
            put(')')
        elif len(n.a) == 2:
            put('(')
            rec(n.a[0], depth + 1)
            put(n.op)
            rec(n.a[1], depth + 1)
            put(')')
        else:
            put(n.op + '(')
            for x in n.a:
                rec(x, depth + 1)
                put(',')
            put(')')
    rec(n, 0)
    return ''.join(out)


# --- traversal helpers ----------------------------------------------------

def children(n):
    op = n.op
    if op in ('c', 'v', 'bv', 'T', 'F'):
        return ()
    if op == '^':
        return (n.a[0],)
    if op == 'f':
        return n.a[1:]
    return n.a


def topo(roots):
    """Post-order list of all nodes reachable from roots."""
    seen = set()
    out = []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.i in seen:
            continue
        seen.add(n.i)
        stack.append((n, True))
        for c in children(n):
            if c.i not in seen:
                stack.append((c, False))
    return out


def free_vars(roots):
    return [n for n in topo(roots) if n.op in ('v', 'bv')]


def evaluate(roots, env, exact=False):
    """Evaluate nodes at {name: value}; floats unless exact."""
    vals = {}
    for n in topo(roots):
        op = n.op
        if op == 'c':
            v = n.a if exact else float(n.a)
        elif op in ('v', 'bv'):
            v = env[n.a]
        elif op == 'T':
            v = True
        elif op == 'F':
            v = False
        else:
            if op == '^':
                v = vals[n.a[0].i] ** n.a[1]
            elif op == 'f':
                ar = [vals[x.i] for x in n.a[1:]]
                v = _FUNS[n.a[0]](*ar)
            else:
                ar = [vals[x.i] for x in n.a]
                if op == '+': v = ar[0] + ar[1]
                elif op == '*': v = ar[0] * ar[1]
                elif op == '/': v = (Fraction(ar[0]) / ar[1] if exact
                                     else ar[0] / ar[1])
                elif op == '//': v = ar[0] // ar[1]
                elif op == '%': v = ar[0] % ar[1]
                elif op == '<': v = ar[0] < ar[1]
                elif op == '<=': v = ar[0] <= ar[1]
                elif op == '=': v = ar[0] == ar[1]
                elif op == 'not': v = not ar[0]
                elif op == 'and': v = ar[0] and ar[1]
                elif op == 'or': v = ar[0] or ar[1]
                elif op == 'ite': v = ar[1] if ar[0] else ar[2]
                else: raise SymError(op)
        vals[n.i] = v
    return [vals[r.i] for r in roots]


def diff(root, v, cache=None):
    """d root / d v, v a variable node."""
    return diff_many([root], v)[0]


def diff_many(roots, v):
    D = {}
    zero, one = const(0), const(1)
    for n in topo(roots):
        op = n.op
        if n.sort == 'B':
            continue
        if op == 'c':
            d = zero
        elif op == 'v':
            d = one if n is v else zero
        elif op == '+':
            d = add(D[n.a[0].i], D[n.a[1].i])
        elif op == '*':
            a, b = n.a
            d = add(mul(D[a.i], b), mul(a, D[b.i]))
        elif op == '/':
            a, b = n.a
            da, db = D[a.i], D[b.i]
            d = div(da, b)
            if not (db.op == 'c' and db.a == 0):
                d = sub(d, div(mul(a, db), mul(b, b)))
        elif op == '^':
            a, k = n.a
            d = mul(mul(const(k), powi(a, k - 1)), D[a.i])
        elif op == 'ite':
            c, a, b = n.a
            d = ite(c, D[a.i], D[b.i])
        elif op == 'f':
            name = n.a[0]
            a = n.a[1]
            da = D[a.i]
            if da.op == 'c' and da.a == 0 and len(n.a) == 2:
                d = zero
            elif name == 'sqrt':
                d = div(da, mul(const(2), n))
            elif name == 'exp':
                d = mul(n, da)
            elif name == 'log':
                d = div(da, a)
            elif name == 'sin':
                d = mul(fun('cos', a), da)
            elif name == 'cos':
                d = neg(mul(fun('sin', a), da))
            elif name == 'tanh':
                d = mul(sub(one, mul(n, n)), da)
            elif name == 'sinh':
                d = mul(fun('cosh', a), da)
            elif name == 'cosh':
                d = mul(fun('sinh', a), da)
            elif name == 'pow' and n.a[2].op == 'c':
                # d a^p = p * a^p / a
                d = mul(mul(n.a[2], div(n, a)), da)
            else:
                raise SymError('derivative of %s' % name)
        else:
            raise SymError('derivative of %s' % op)
        D[n.i] = d
    return [D[r.i] for r in roots]


def subs(roots, mapping):
    """Substitute {node: node} (variables)."""
    vals = {}
    mp = {k.i: v for k, v in mapping.items()}
    for n in topo(roots):
        if n.i in mp:
            vals[n.i] = mp[n.i]
            continue
        ch = children(n)
        if not ch:
            vals[n.i] = n
            continue
        new = [vals[c.i] for c in ch]
        if all(x is y for x, y in zip(new, ch)):
            vals[n.i] = n
            continue
        op = n.op
        if op == '+': v = add(*new)
        elif op == '*': v = mul(*new)
        elif op == '/': v = div(*new)
        elif op == '^': v = powi(new[0], n.a[1])
        elif op == 'f': v = fun(n.a[0], *new)
        elif op == '//': v = fdiv_int(*new)
        elif op == '%': v = mod_int(*new)
        elif op == '<': v = lt(*new)
        elif op == '<=': v = le(*new)
        elif op == '=': v = eq(*new)
        elif op == 'not': v = bnot(*new)
        elif op == 'and': v = band(*new)
        elif op == 'or': v = bor(*new)
        elif op == 'ite': v = ite(*new)
        else: raise SymError(op)
        vals[n.i] = v
    return [vals[r.i] for r in roots]


# --- arrays ---------------------------------------------------------------

def to_obj(x):
    """Array-like -> object array of Sym."""
    x = np.asarray(x)
    if x.dtype == object:
        out = np.empty(x.shape, dtype=object)
        of, xf = out.reshape(-1), x.reshape(-1)
        for i in range(xf.shape[0]):
            v = xf[i]
            of[i] = v if isinstance(v, Node) else lift(v)
        return out
    out = np.empty(x.shape, dtype=object)
    of, xf = out.reshape(-1), x.reshape(-1)
    for i in range(xf.shape[0]):
        of[i] = const(num(xf[i]))
    return out


def to_float(x):
    x = np.asarray(x)
    if x.dtype != object:
        return x.astype(np.float64)
    return np.vectorize(float, otypes=[np.float64])(x) if x.size else \
        np.zeros(x.shape)


def sym_array(name, shape, sort='R'):
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    out = np.empty(shape, dtype=object)
    for ii in np.ndindex(*shape):
        out[ii] = var(name + '_' + '_'.join(str(i) for i in ii)
                      if ii else name, sort)
    return out


def has_sym(x):
    """True if the object contains a non-constant symbolic value."""
    if isinstance(x, Node):
        return True
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(v, Node) for v in x.reshape(-1))
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False
