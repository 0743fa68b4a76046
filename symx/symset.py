"""
Symbolic sets of indices: the arrays of mesh entity indices with a symbolic
membership condition of each index.

The set operations of numpy act on the conditions. Anything else makes the
array concrete by deciding the conditions one by one (the paths fork).
"""
import numpy as np

from . import expr as E


def _t(x):
    return x if isinstance(x, E.SymBool) else bool(x)


class Count:
    """The number of elements; comparisons to zero do not need the array."""

    def __init__(self, s):
        self.s = s

    def any(self):
        return E.disj(self.s.bits)

    def __bool__(self):
        return bool(self.any())

    def __eq__(self, o):
        if isinstance(o, (int, np.integer)) and o == 0:
            return not bool(self)
        return int(self) == o

    def __ne__(self, o):
        return not self == o

    def __gt__(self, o):
        if isinstance(o, (int, np.integer)) and o == 0:
            return bool(self)
        return int(self) > o

    def __ge__(self, o):
        if isinstance(o, (int, np.integer)) and o == 1:
            return bool(self)
        return int(self) >= o

    def __lt__(self, o):
        return not self >= o

    def __le__(self, o):
        return not self > o

    def __int__(self):
        return len(self.s.array())
    __index__ = __int__

    def __hash__(self):
        return hash(int(self))

    def _num(name):
        def f(self, *a):
            return getattr(int(self), name)(*[int(x) if isinstance(x, Count)
                                              else x for x in a])
        return f

    for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__',
               '__rmul__', '__floordiv__', '__mod__', '__truediv__',
               '__neg__'):
        locals()[_n] = _num(_n)


class SymSet:
    """bits[i]: the condition of the index i being in the array; `source` (a
    function) returns the array for sets that are not sorted and unique."""
    __sx_array__ = True
    __array_priority__ = 1000.0
    ndim = 1
    dtype = np.dtype(np.uint32)

    def __init__(self, bits, source=None):
        self.bits = list(bits)
        self.source = source
        self._arr = None

    @property
    def is_set(self):
        return self.source is None

    @property
    def shape(self):
        return (Count(self),)

    @shape.setter
    def shape(self, val):
        raise NotImplementedError('reshaping a symbolic set')

    @property
    def size(self):
        return Count(self)

    def array(self):
        if self._arr is None:
            if self.source is not None:
                self._arr = self.source()
            else:
                self._arr = np.array([i for i, b in enumerate(self.bits)
                                      if bool(b)], dtype=np.uint32)
            self._arr = np.asarray(self._arr, dtype=np.uint32)
        return self._arr

    def copy(self, *a, **k):
        return SymSet(self.bits, self.source)

    def astype(self, dtype, **k):
        if np.dtype(dtype).kind in 'iu':
            return self.copy()
        return self.array().astype(dtype)

    def __array__(self, dtype=None, copy=None):
        return np.array(self.array(), dtype=dtype)

    def __len__(self):
        return len(self.array())

    def __iter__(self):
        return iter(self.array())

    def __getitem__(self, key):
        return self.array()[key]

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.array(), name)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return getattr(ufunc, method)(*_conc(inputs), **_conc(kw))

    def __array_function__(self, func, types, args, kw):
        f = TABLE.get(func)
        if f is not None:
            r = f(*args, **kw)
            if r is not NotImplemented:
                return r
        return func(*_conc(args), **_conc(kw))

    def _op(name):
        def f(self, *a):
            return getattr(self.array(), name)(*_conc(a))
        return f

    for _n in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__',
               '__add__', '__radd__', '__sub__', '__rsub__', '__mul__',
               '__rmul__', '__floordiv__', '__mod__', '__contains__'):
        locals()[_n] = _op(_n)
    __hash__ = object.__hash__


def _conc(x):
    if isinstance(x, SymSet):
        return x.array()
    if isinstance(x, tuple):
        return tuple(_conc(y) for y in x)
    if isinstance(x, list):
        return [_conc(y) for y in x]
    if isinstance(x, dict):
        return {k: _conc(v) for k, v in x.items()}
    return x


def bits_of(a, n):
    if isinstance(a, SymSet):
        b = a.bits
    else:
        a = np.asarray(a)
        b = [False] * max(n, (int(a.max()) + 1) if a.size else 0)
        for i in a.reshape(-1):
            b[int(i)] = True
    return list(b) + [False] * (n - len(b))


def _two(a, b):
    n = max([len(x.bits) if isinstance(x, SymSet)
             else (int(np.max(x)) + 1 if np.size(x) else 0) for x in (a, b)])
    return bits_of(a, n), bits_of(b, n)


def _union(a, b):
    x, y = _two(a, b)
    return SymSet([E.disj((p, q)) for p, q in zip(x, y)])


def _inter(a, b, assume_unique=False, return_indices=False):
    if return_indices:
        return NotImplemented
    x, y = _two(a, b)
    return SymSet([E.conj((p, q)) for p, q in zip(x, y)])


def _not(q):
    return E.bnot(q) if isinstance(q, E.SymBool) else (not q)


def _diff(a, b, assume_unique=False):
    if assume_unique and not (isinstance(a, SymSet) and a.is_set):
        return NotImplemented
    x, y = _two(a, b)
    return SymSet([E.conj((p, _not(q))) for p, q in zip(x, y)])


def _xor(a, b, assume_unique=False):
    x, y = _two(a, b)
    return SymSet([E.disj((E.conj((p, _not(q))), E.conj((_not(p), q))))
                   for p, q in zip(x, y)])


def _unique(a, return_index=False, return_inverse=False, return_counts=False,
            axis=None, **k):
    if return_index or return_inverse or return_counts or axis:
        return NotImplemented
    return SymSet(a.bits)


def _sort(a, **k):
    return a.copy() if a.is_set else NotImplemented


def _copy(a, **k):
    return a.copy()


def _size(a, axis=None):
    return Count(a)


TABLE = {np.union1d: _union, np.intersect1d: _inter, np.setdiff1d: _diff,
         np.setxor1d: _xor, np.unique: _unique, np.sort: _sort,
         np.copy: _copy}


class CMesh:
    """
    A mesh with entity queries on symbolic sets.

    `get_complete()` and `get_incident()` of symbolic sets are expressed by
    the real connectivities of the mesh, everything else is passed to the real
    mesh with concrete arrays.
    """

    def __init__(self, real, **over):
        self.__dict__['_real'] = real
        self.__dict__['_conns'] = {}
        self.__dict__.update(over)

    def _conn(self, d1, d2):
        key = (d1, d2)
        if key not in self._conns:
            r = self._real
            r.setup_connectivity(d1, d2)
            c = r.get_conn(d1, d2)
            ind, off = np.array(c.indices), np.array(c.offsets)
            self._conns[key] = [ind[i:j].tolist()
                                for i, j in zip(off[:-1], off[1:])]
        return self._conns[key]

    def get_complete(self, dim, entities, dent):
        if not isinstance(entities, SymSet):
            return self._real.get_complete(dim, entities, dent)
        conn = self._conn(dim, dent)
        bits = entities.bits
        n = max([i for c in conn for i in c], default=-1) + 1
        bits = bits_of(entities, max(n, len(bits)))
        return SymSet([E.conj([bits[i] for i in c]) for c in conn])

    def get_incident(self, dim, entities, dent, ret_offsets=False):
        if not isinstance(entities, SymSet) or ret_offsets:
            return self._real.get_incident(dim, _conc(entities), dent,
                                           ret_offsets)
        conn = self._conn(dent, dim)
        out = [[] for _ in range(int(self._real.num[dim]))]
        for b, c in zip(bits_of(entities, len(conn)), conn):
            for i in c:
                out[i].append(b)
        return SymSet([E.disj(o) for o in out], source=lambda:
                      self._real.get_incident(dim, entities.array(), dent))

    def __getattr__(self, name):
        v = getattr(self._real, name)
        if callable(v):
            def f(*a, **k):
                return v(*_conc(a), **_conc(k))
            return f
        return v
