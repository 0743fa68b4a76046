"""Products of scipy sparse arrays with symbolic vectors and matrices."""
import numpy as np
import scipy.sparse as sp
from scipy.sparse import _compressed, _coo

from symx import expr as E
from symx import symnp as N

_done = []


def _csr(m):
    """(indptr, indices, data) in the CSR layout of a CSR/CSC array whose
    data may be symbolic."""
    if m.format == 'csr':
        return m.indptr, m.indices, m.data
    nr, nc = m.shape
    rows = [[] for i in range(nr)]
    for j in range(nc):
        for k in range(m.indptr[j], m.indptr[j + 1]):
            rows[m.indices[k]].append((j, m.data[k]))
    return _from_rows(rows)


def _from_rows(rows):
    indptr = np.cumsum([0] + [len(r) for r in rows]).astype(np.int32)
    indices = np.array([j for r in rows for j, v in r], dtype=np.int32)
    data = np.empty(len(indices), dtype=object)
    data[:] = [v for r in rows for j, v in r]
    return indptr, indices, data


def make_csr(indptr, indices, data, shape):
    out = sp.csr_array((np.zeros(len(indices)), indices, indptr),
                       shape=shape)
    out.data = N.wrap(data)
    out.has_sorted_indices = True
    out.has_canonical_format = True
    return out


def _vec(self, other):
    ip, ix, d = _csr(self)
    o = N.A(other).reshape(-1)
    out = np.empty(self.shape[0], dtype=object)
    for i in range(self.shape[0]):
        s = 0.0
        for k in range(ip[i], ip[i + 1]):
            s = s + d[k] * o[ix[k]]
        out[i] = s
    return N.wrap(out)


def _mat(self, other):
    cols = [_vec(self, other[:, k]) for k in range(other.shape[1])]
    return N.wrap(np.stack([N.A(c) for c in cols], axis=1))


def _spm(self, other):
    ip, ix, d = _csr(self)
    op, ox, od = _csr(other)
    rows = []
    for i in range(self.shape[0]):
        acc = {}
        for k in range(ip[i], ip[i + 1]):
            j = ix[k]
            for m in range(op[j], op[j + 1]):
                c = int(ox[m])
                v = d[k] * od[m]
                acc[c] = acc[c] + v if c in acc else v
        rows.append(sorted(acc.items()))
    return make_csr(*_from_rows(rows), (self.shape[0], other.shape[1]))


def _plain(a):
    """Object arrays of constants to floats."""
    if isinstance(a, tuple):
        return tuple(_plain(v) for v in a)
    if isinstance(a, np.ndarray) and N.rdt(a).kind == 'O':
        b = N.A(a)
        if not E.has_sym(b) or all(not isinstance(v, E.Node)
                                   or E.is_const(v) for v in b.ravel()):
            return np.array([E.to_float(v) for v in b.ravel()]
                            ).reshape(b.shape).astype(
                                a.dtype if type(a) is N.SA else float)
    return a


def rows_of(m):
    """Rows of any 2D sparse array as dictionaries (duplicates summed)."""
    rows = [{} for i in range(m.shape[0])]

    def put(i, j, v):
        i, j = int(i), int(j)
        rows[i][j] = rows[i][j] + v if j in rows[i] else v
    if m.format in ('csr', 'csc'):
        d = N.A(m.data)
        for i in range(len(m.indptr) - 1):
            for k in range(m.indptr[i], m.indptr[i + 1]):
                if m.format == 'csr':
                    put(i, m.indices[k], d[k])
                else:
                    put(m.indices[k], i, d[k])
    elif m.format == 'coo':
        d = N.A(m.data)
        for i, j, v in zip(m.coords[0], m.coords[1], d):
            put(i, j, v)
    elif m.format == 'dia':
        d = N.A(m.data)
        for o, row in zip(m.offsets, d):
            for j in range(min(m.shape[1], len(row))):
                i = j - int(o)
                if 0 <= i < m.shape[0]:
                    put(i, j, row[j])
    else:
        raise E.Concretisation('sparse format ' + m.format)
    return rows


def csr_of(m):
    return make_csr(*_from_rows([sorted(r.items()) for r in rows_of(m)]),
                    m.shape)


def _to_csr(self, *args, **kw):
    return csr_of(self)


def _to_csc(self, *args, **kw):
    rows = rows_of(self)
    cols = [[] for j in range(self.shape[1])]
    for i, r in enumerate(rows):
        for j, v in r.items():
            cols[j].append((i, v))
    ip, ix, d = _from_rows(cols)
    out = sp.csc_array((np.zeros(len(ix)), ix, ip), shape=self.shape)
    out.data = N.wrap(d)
    return out


def _to_coo(self, *args, **kw):
    r, c, d = [], [], []
    for i, row in enumerate(rows_of(self)):
        for j, v in sorted(row.items()):
            r.append(i)
            c.append(j)
            d.append(v)
    out = sp.coo_array((np.zeros(len(d)), (np.array(r, dtype=np.int32),
                                           np.array(c, dtype=np.int32))),
                       shape=self.shape)
    o = np.empty(len(d), dtype=object)
    o[:] = d
    out.data = N.wrap(o)
    return out


def _to_dense(self, *args, **kw):
    out = np.zeros(self.shape, dtype=object)
    for i, row in enumerate(rows_of(self)):
        for j, v in row.items():
            out[i, j] = v
    return N.wrap(out)


def _binop(self, other, op):
    a, b = rows_of(self), rows_of(other)
    rows = []
    for ra, rb in zip(a, b):
        row = {}
        for j in sorted(set(ra) | set(rb)):
            x, y = ra.get(j, 0.0), rb.get(j, 0.0)
            if op == '_plus_':
                row[j] = x + y
            elif op == '_minus_':
                row[j] = x - y
            elif op == '_elmul_':
                if j in ra and j in rb:
                    row[j] = x * y
            else:
                raise E.Concretisation('sparse operation ' + op)
        rows.append(sorted(row.items()))
    return make_csr(*_from_rows(rows), self.shape)


def install():
    if _done:
        return
    _done.append(1)
    from scipy.sparse import _dia, _csr as csr_mod, _csc as csc_mod

    def conv(K, name, fun):
        orig = getattr(K, name, None)
        if orig is None:
            return

        def f(self, *args, **kw):
            if N.issym(self.data):
                return fun(self, *args, **kw)
            return orig(self, *args, **kw)
        setattr(K, name, f)
    for K in (_coo._coo_base, _dia._dia_base, csr_mod._csr_base,
              csc_mod._csc_base):
        conv(K, 'tocsr', _to_csr)
        conv(K, 'tocsc', _to_csc)
        conv(K, 'tocoo', _to_coo)
        conv(K, 'toarray', _to_dense)
        conv(K, 'todense', _to_dense)
    orig_b = _compressed._cs_matrix._binopt

    def binopt(self, other, op):
        if N.issym(self.data) or N.issym(other.data):
            return _binop(self, other, op)
        return orig_b(self, other, op)
    _compressed._cs_matrix._binopt = binopt
    orig_d = _dia._dia_base._matmul_sparse

    def dia_mm(self, other):
        if N.issym(self.data) or N.issym(other.data):
            return _spm(csr_of(self), other if other.format in ('csr', 'csc')
                        else csr_of(other))
        return orig_d(self, other)
    _dia._dia_base._matmul_sparse = dia_mm
    C = _compressed._cs_matrix

    def deco(name, fun):
        orig = getattr(C, name)

        def f(self, other):
            if N.issym(self.data) or N.issym(
                    other.data if sp.issparse(other) else other):
                return fun(self, other)
            return orig(self, other)
        setattr(C, name, f)
        for K in (sp.csr_array, sp.csc_array, sp.csr_matrix, sp.csc_matrix):
            if name in K.__dict__:
                setattr(K, name, f)

    def init(K):
        orig = K.__init__

        def f(self, arg1, *args, **kw):
            arg1 = _plain(arg1)
            kw.pop('copy', None)
            d = None
            if sp.issparse(arg1) and N.issym(arg1.data):
                src = {'csr': _to_csr, 'csc': _to_csc, 'coo': _to_coo}[
                    self.format](arg1)
                d = src.data
                arg1 = src.copy()
                arg1.data = np.ones(len(d))
            elif isinstance(arg1, tuple) and len(arg1) in (2, 3) \
                    and N.issym(arg1[0]):
                d = arg1[0]
                arg1 = (np.ones(np.shape(d)),) + tuple(arg1[1:])
            elif isinstance(arg1, np.ndarray) and N.issym(arg1):
                raise E.Concretisation('sparse from a dense symbolic array')
            if d is not None:
                kw.pop('dtype', None)
            orig(self, arg1, *args, **kw)
            if d is not None:
                self.data = N.wrap(np.asarray(d))
        K.__init__ = f
    init(_coo._coo_base)
    init(_dia._dia_base)
    init(C)

    def struct(K, name):
        # Operations that only move the data.
        orig = getattr(K, name)

        def f(self, *args, **kw):
            if not N.issym(self.data):
                return orig(self, *args, **kw)
            d = N.A(self.data)
            tmp = self.__class__((np.arange(1.0, len(d) + 1), self.indices,
                                  self.indptr), shape=self.shape)
            out = orig(tmp, *args, **kw)
            if sp.issparse(out):
                ii = np.asarray(out.data).astype(int) - 1
                out.data = N.wrap(d[ii])
            elif isinstance(out, np.ndarray):
                o = np.zeros(out.shape, dtype=object)
                o[out != 0] = d[out[out != 0].astype(int) - 1]
                out = N.wrap(o)
            else:
                out = d[int(out) - 1] if out else 0.0
            return out
        setattr(K, name, f)
    for K in (sp.csr_array, sp.csc_array, sp.csr_matrix, sp.csc_matrix):
        struct(K, '__getitem__')

    deco('_matmul_vector', _vec)
    deco('_matmul_multivector', _mat)
    deco('_matmul_sparse', _spm)
