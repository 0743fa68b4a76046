"""
C16: regions contain the mesh entities given by their selectors, set
operators and kinds.
"""
import numpy as np

from symx.runner import Case
from symx import symset as SS

PROPERTY = 'C16'
BOUNDS = ('meshes of two to four cells, with a vertex in no cell (bars, triangles, quadrilaterals, '
          'tetrahedra, hexahedra); any selection of vertices and cells (one '
          'Boolean per entity), up to three operators; any coordinates of up '
          'to four vertices in relations, any group numbers 0-2; any '
          'dependencies among 3 (4: thorough) region definitions; the facet '
          'to cell tables: any subset of the facets and the parent cells')
OUTSIDE = ('operators of different kinds chained without parentheses; sets of '
           'entities read from mesh files; regions of several topological '
           'dimensions in a mesh; mirror regions; the entity queries of the '
           'mesh (property C09)')
ASSUMPTIONS = ['intermediate results are not empty where entities of another '
               'dimension are derived from them']

MESHES = {
    '1_2': ([[0.0], [1.0], [2.0], [3.0]], [[0, 1], [1, 2], [2, 3]]),
    '2_3': ([[0, 0], [2, 0], [2, 2], [0, 2], [1, 1]],
            [[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]]),
    '2_4': ([[0, 0], [1, 0], [2, 0], [0, 1], [1, 1], [2, 1], [0, 2], [1, 2],
             [2, 2]],
            [[0, 1, 4, 3], [1, 2, 5, 4], [3, 4, 7, 6], [4, 5, 8, 7]]),
    '3_4': ([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1],
             [2, 0, 1]],
            [[0, 1, 2, 3], [1, 4, 2, 3], [1, 5, 4, 3]]),
    '3_8': ([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1],
             [1, 0, 1], [1, 1, 1], [0, 1, 1], [2, 0, 0], [2, 1, 0],
             [2, 0, 1], [2, 1, 1]],
            [[0, 1, 2, 3, 4, 5, 6, 7], [1, 8, 9, 2, 5, 10, 11, 6]]),
}
# A vertex without cells.
MESHES['2_3_free'] = ([[3, 3]] + MESHES['2_3'][0],
                      [[i + 1 for i in c] for c in MESHES['2_3'][1][:2]])
TD = {'2_3_free': 2, '1_2': 1, '2_3': 2, '2_4': 2, '3_4': 3, '3_8': 3}


def make_domain(ctx, key, over=None):
    from sfepy.discrete.fem import FEDomain, Mesh
    with ctx.concrete():
        c, co = MESHES[key]
        mesh = Mesh.from_data('m', np.array(c, dtype=np.float64), None,
                              [np.array(co, dtype=np.int32)],
                              [np.zeros(len(co), dtype=np.int32)], [key[:3]])
        d = FEDomain('d', mesh)
        for d1 in range(TD[key] + 1):
            for d2 in range(TD[key] + 1):
                if (d1, d2) != (0, 0):
                    d.cmesh.setup_connectivity(d1, d2)
    if ctx.sym:
        cm = SS.CMesh(d.cmesh, **(over or {}))
        d.cmesh_tdim = list(d.cmesh_tdim)
        d.cmesh_tdim[TD[key]] = cm
        d.cmesh = cm
    return d


class Model:
    """The incidence of the entities by their vertices."""

    def __init__(self, ctx, key, domain):
        self.ctx, self.td = ctx, TD[key]
        co = MESHES[key][1]
        nv = len(MESHES[key][0])
        self.vs = {0: [frozenset([i]) for i in range(nv)],
                   self.td: [frozenset(c) for c in co]}
        r = getattr(domain.cmesh, '_real', domain.cmesh)
        for d in range(1, self.td):
            c = r.get_conn(d, 0)
            ind, off = np.array(c.indices), np.array(c.offsets)
            self.vs[d] = [frozenset(ind[i:j].tolist())
                          for i, j in zip(off[:-1], off[1:])]
        self._memo = {}

    def n(self, d):
        return len(self.vs[d])

    def _in(self, d, e, k, f):
        a, b = self.vs[d][e], self.vs[k][f]
        return a <= b if d <= k else b <= a

    def inc(self, d, k, S):
        """Entities of dimension d incident to the entities S of dimension
        k."""
        if d == k:
            return list(S)
        return [self.ctx.Or(*[S[f] for f in range(self.n(k))
                              if self._in(d, e, k, f)])
                for e in range(self.n(d))]

    def comp(self, d, k, S):
        """Entities of dimension d having all their entities of dimension k
        in S."""
        return [self.ctx.And(*[S[f] for f in range(self.n(k))
                               if self._in(d, e, k, f)])
                for e in range(self.n(d))]

    def ne(self, S):
        return self.ctx.Or(*S)

    def ite(self, c, a, b):
        x = self.ctx
        return [x.Or(x.And(c, p), x.And(x.Not(c), q)) for p, q in zip(a, b)]


class Set:
    """A region of kind 'cell' given by the entities S of dimension k."""

    def __init__(self, m, k, S, kind='cell'):
        self.m, self.k, self.S, self.kind = m, k, list(S), kind

    def get(self, d):
        m, k, S = self.m, self.k, self.S
        m.ctx.assume(m.ne(S))
        if d == k:
            return S
        if k == m.td or (d < k and k > 0):
            return m.inc(d, k, S)
        V = S if k == 0 else m.inc(0, k, S)
        cells = m.comp(m.td, 0, V)
        if d == m.td:
            return cells
        # Entities of the highest available dimension.
        low = m.comp(d, k, S)
        if k == 0 and d == 1 and m.td == 3:
            faces = m.comp(2, 0, S)
            low = m.ite(m.ne(faces), m.inc(1, 2, faces), low)
        return m.ite(m.ne(cells), m.inc(d, m.td, cells), low)

    def final(self, kind):
        m, k, S = self.m, self.k, self.S
        kd = kdim(kind, m.td)
        if k == kd:
            P = S
        elif kd < k:
            P = m.inc(kd, k, S)
        else:
            P = m.comp(kd, 0, S if k == 0 else m.inc(0, k, S))
        return Final(m, kd, P, kind)


class Final(Set):
    """A region of a given kind, given by its entities of that dimension."""

    def __init__(self, m, kd, P, kind):
        Set.__init__(self, m, kd, P, kind)
        self.only = kind.endswith('_only')

    def get(self, d):
        if d == self.k:
            return self.S
        if d > self.k or self.only:
            return [False] * self.m.n(d)
        return self.m.inc(d, self.k, self.S)


def kdim(kind, td):
    kind = kind.replace('_only', '')
    return {'vertex': 0, 'edge': 1, 'face': 2, 'cell': td,
            'facet': td - 1}[kind]


OPS = {'+': lambda c, p, q: c.Or(p, q), '*': lambda c, p, q: c.And(p, q),
       '-': lambda c, p, q: c.And(p, c.Not(q))}


def op(m, a, code, b):
    """a code b, code as '+v'."""
    d = kdim({'v': 'vertex', 'e': 'edge', 'f': 'face', 's': 'facet',
              'c': 'cell'}[code[1]], m.td)
    x, y = a.get(d), b.get(d)
    return Set(m, d, [OPS[code[0]](m.ctx, p, q) for p, q in zip(x, y)])


def select(ctx, name, n):
    """A symbolic selection of n entities: (the array, the conditions)."""
    bits = [ctx.bool('%s%d' % (name, i)) for i in range(n)]
    if ctx.sym:
        return SS.SymSet(bits), bits
    return np.array([i for i, b in enumerate(bits) if b],
                    dtype=np.uint32), bits


def same_set(ctx, arr, bits, label):
    """The array is sorted, unique and given by the conditions."""
    if isinstance(arr, SS.SymSet):
        ctx.true(arr.is_set, label + ' sorted and unique')
    else:
        a = np.asarray(arr)
        ctx.true(a.ndim == 1 and a.dtype.kind in 'iu'
                 and bool((np.diff(a.astype(np.int64)) > 0).all()),
                 label + ' sorted and unique')
    b = SS.bits_of(arr, len(bits))
    ctx.same(len(b), len(bits), label + ' size')
    x = [ctx.Or(ctx.And(p, q), ctx.And(ctx.Not(p), ctx.Not(q)))
         for p, q in zip(b, bits)]
    ctx.true(ctx.And(*x), label)


def same_count(ctx, cnt, bits, label):
    if isinstance(cnt, SS.Count):
        same_set(ctx, cnt.s, bits, label)
    elif ctx.sym:
        n = 0
        for b in bits:
            n = n + ctx.ite(b, 1, 0)
        ctx.eq(np.array([n]), np.array([int(cnt)]), label)
    else:
        ctx.same(int(cnt), sum(bool(b) for b in bits), label)


def check_region(ctx, m, reg, fin, label='', shape=True):
    for d in range(m.td + 1):
        same_set(ctx, reg.entities[d], fin.get(d), '%s dim %d' % (label, d))
    if shape:
        same_count(ctx, reg.shape.n_vertex, fin.get(0), label + ' n_vertex')
        same_count(ctx, reg.shape.n_cell, fin.get(m.td), label + ' n_cell')
        same_count(ctx, reg.shape.n_facet, fin.get(m.td - 1),
                   label + ' n_facet')
        if m.td > 1:
            same_count(ctx, reg.shape.n_edge, fin.get(1), label + ' n_edge')
        if m.td > 2:
            same_count(ctx, reg.shape.n_face, fin.get(2), label + ' n_face')
    ctx.same(reg.kind, 'facet' if kdim(fin.kind, m.td) == m.td - 1
             and fin.kind in ('edge', 'face', 'vertex', 'facet')
             else fin.kind, label + ' kind')


def create(ctx, m, d, name, sel, kind, fun, model, allow=False, parent=None):
    """Create a region and compare with the model."""
    fin = model.final(kind) if isinstance(model, Set) \
        and not isinstance(model, Final) else model
    try:
        reg = d.create_region(name, sel, kind=kind, functions=fun,
                              allow_empty=allow, parent=parent)
    except ValueError as exc:
        if 'no entities' not in str(exc):
            raise
        ctx.true(ctx.And(not allow, ctx.Not(m.ne(fin.S))),
                 '%s: an empty region is refused' % name)
        return None, None
    if not allow:
        ctx.true(m.ne(fin.S), '%s is not empty' % name)
    elif ctx.sym:
        ctx.true(ctx.Or(ctx.And(bool(reg.is_empty), ctx.Not(m.ne(fin.S))),
                        ctx.And(not reg.is_empty, m.ne(fin.S))),
                 '%s emptiness' % name)
    else:
        ctx.same(bool(reg.is_empty), not m.ne(fin.S), '%s emptiness' % name)
    check_region(ctx, m, reg, fin, name)
    ctx.same((reg.name, reg.tdim, reg.kind_tdim),
             (name, m.td, kdim(kind, m.td)), 'attributes')
    return reg, fin


def setup(ctx, key, names, over=None):
    """The domain, the model and the selection functions; names like 'av'
    select vertices, 'bc' cells."""
    d = make_domain(ctx, key, over)
    m = Model(ctx, key, d)
    fun, leaf = {}, {}
    for nm in names:
        k = 0 if nm[-1] == 'v' else m.td
        arr, bits = select(ctx, nm, m.n(k))

        def f(coors, domain=None, arr=arr, n=m.n(k)):
            if len(coors) != n:
                raise ValueError('wrong coordinates')
            return arr
        fun[nm] = f
        leaf[nm] = Set(m, k, bits)
    return d, m, fun, leaf


def text(nm):
    return ('vertices by ' if nm[-1] == 'v' else 'cells by ') + nm


def h_leaf(ctx, key, nm, kind, allow=False):
    d, m, fun, leaf = setup(ctx, key, [nm])
    if nm[-1] == 'c' or not allow:
        ctx.assume(m.ne(leaf[nm].S))
    reg, fin = create(ctx, m, d, 'R', text(nm), kind, fun, leaf[nm], allow)
    if reg is None:
        return
    # A copy, a reference and their independence.
    cp, _ = create(ctx, m, d, 'C', 'copy r.R', kind, fun, fin, allow)
    ctx.true(cp is not reg, 'copy')
    ctx.same([r.name for r in d.regions], ['R', 'C'], 'regions')
    for k2 in {'cell': ('facet', 'vertex', 'edge', 'facet_only'),
               'facet': ('vertex', 'vertex_only')}.get(kind, ()):
        if k2 == 'edge' and m.td < 2 or kdim(k2, m.td) >= m.td:
            continue
        create(ctx, m, d, 'C' + k2, 'copy r.R', k2, fun,
               Final(m, kdim(k2, m.td), fin.get(kdim(k2, m.td)), k2), allow)
    check_region(ctx, m, reg, fin, 'original')
    ctx.same(reg.name, 'R', 'name of the original')


def h_ops(ctx, key, expr, kind, allow=False):
    """expr: nested tuples (a, code, b)."""
    names = []

    def visit(e, top):
        if isinstance(e, str):
            if e not in names:
                names.append(e)
            return text(e)
        t = '%s %s %s' % (visit(e[0], 0), e[1], visit(e[2], 0))
        return t if top else '(' + t + ')'
    sel = visit(expr, 1)
    d, m, fun, leaf = setup(ctx, key, names)

    def ev(e):
        return leaf[e] if isinstance(e, str) else op(m, ev(e[0]), e[1],
                                                     ev(e[2]))
    r = ev(expr)
    if kdim(kind, m.td) != r.k:
        ctx.assume(m.ne(r.S))
    create(ctx, m, d, 'R', sel, kind, fun, r, allow)


def h_chain(ctx, key, nms, code):
    """The same associative operator chained without parentheses."""
    d, m, fun, leaf = setup(ctx, key, nms)
    sel = (' %s ' % code).join(text(n) for n in nms)
    r = leaf[nms[0]]
    for n in nms[1:]:
        ctx.assume(m.ne(leaf[n].S))
    for n in nms[1:]:
        r = op(m, r, code, leaf[n])
    kind = {'v': 'vertex', 's': 'facet', 'c': 'cell', 'e': 'edge'}[code[1]]
    if code[0] == '*':
        x = leaf[nms[-1]]
        for n in nms[-2::-1]:
            x = op(m, leaf[n], code, x)
    create(ctx, m, d, 'R', sel, kind, fun, r)


def h_named(ctx, key, ka, kb, code, kind, extra=None):
    """Operators on named regions of given kinds leave them unchanged."""
    d, m, fun, leaf = setup(ctx, key, ['av', 'bv'])
    A, fa = create(ctx, m, d, 'A.1', text('av'), ka, fun, leaf['av'])
    B, fb = create(ctx, m, d, 'B_2', text('bv'), kb, fun, leaf['bv'])
    if A is None or B is None:
        return
    x = op(m, fa, code, fb)
    ctx.assume(m.ne(x.S))
    sel = 'r.A.1 %s r.B_2' % code
    if extra is not None:
        sel = '(%s) %s r.A.1' % (sel, extra)
        x = op(m, x, extra, fa)
        ctx.assume(m.ne(x.S))
    create(ctx, m, d, 'C', sel, kind, fun, x)
    check_region(ctx, m, A, fa, 'A')
    check_region(ctx, m, B, fb, 'B')
    ctx.same([r.name for r in d.regions], ['A.1', 'B_2', 'C'], 'names')
    ctx.raises(ValueError, lambda: d.create_region('D', 'r.X +v r.A.1'),
               'unknown region')


def h_surface(ctx, key):
    """Surface facets of the whole mesh; of cells by facets counting."""
    d, m, fun, leaf = setup(ctx, key, ['av'])
    f = m.td - 1
    cnt = [sum(m._in(f, e, m.td, c) for c in range(m.n(m.td)))
           for e in range(m.n(f))]
    surf = Set(m, f, [c == 1 for c in cnt])
    create(ctx, m, d, 'S', 'vertices of surface', 'facet', fun, surf)
    if f:
        create(ctx, m, d, 'SV', 'vertices of surface', 'vertex', fun, surf)
    create(ctx, m, d, 'O', 'all', 'cell', fun,
           Set(m, 0, [True] * m.n(0)))
    create(ctx, m, d, 'OF', 'all', 'facet', fun, Set(m, 0, [True] * m.n(0)))
    x = op(m, Final(m, f, surf.S, 'facet'), '*s', leaf['av'])
    create(ctx, m, d, 'X', 'r.S *s ' + text('av'), 'facet', fun, x)
    create(ctx, m, d, 'Y', 'vertices of surface -v ' + text('av'), 'vertex',
           fun, op(m, Set(m, 0, m.inc(0, f, surf.S)), '-v', leaf['av']))


def h_lists(ctx, key, n):
    """Vertex and cell numbers in the definition, any of them."""
    d, m, fun, leaf = setup(ctx, key, [])
    iv = [ctx.choice('i%d' % k, m.n(0)) for k in range(n)]
    for i in range(1, n):
        ctx.assume(iv[i] > iv[i - 1])
    create(ctx, m, d, 'V', 'vertex ' + ', '.join(map(str, iv)), 'vertex',
           fun, Set(m, 0, [i in iv for i in range(m.n(0))]))
    create(ctx, m, d, 'E', 'vertex ' + ','.join(map(str, iv)), 'facet',
           fun, Set(m, 0, [i in iv for i in range(m.n(0))]))
    create(ctx, m, d, 'W', 'vertex in r.V', 'vertex', fun,
           Set(m, 0, [i == iv[0] for i in range(m.n(0))]))
    ic = [i for i in iv if i < m.n(m.td)]
    if ic:
        create(ctx, m, d, 'C', 'cell ' + ', '.join(map(str, ic)), 'cell',
               fun, Set(m, m.td, [i in ic for i in range(m.n(m.td))]))


def h_from(ctx, key, dim, kind):
    from sfepy.discrete.common.region import Region
    d, m, fun, leaf = setup(ctx, key, [])
    arr, bits = select(ctx, 's', m.n(dim))
    ctx.assume(m.ne(bits))
    if dim == 0 and m.td > 1:
        reg = Region.from_vertices(arr, d, 'R', kind=kind)
    elif dim == m.td:
        reg = Region.from_cells(arr, d, 'R', kind=kind)
    else:
        reg = Region.from_facets(arr, d, 'R', kind=kind)
    fin = Set(m, dim, bits).final(kind)
    try:
        reg.finalize()
    except ValueError:
        ctx.true(ctx.Not(m.ne(fin.S)), 'empty')
        return
    reg.update_shape()
    check_region(ctx, m, reg, fin)


def h_relation(ctx, key, rel, n, kind='vertex'):
    """Vertices by relations of their (symbolic) coordinates."""
    dim = int(key[0])
    with ctx.concrete():
        X = np.array(MESHES[key][0], dtype=np.float64)
    X = ctx.const(X)
    sx = ctx.real('x', (n, dim), -2, 2)
    X[:n] = sx
    d = make_domain(ctx, key, {'coors': X})
    if not ctx.sym:
        d.cmesh.coors[:] = X
    m = Model(ctx, key, d)
    b = []
    for i in range(m.n(0)):
        v = {c: X[i, j] for j, c in enumerate('xyz'[:dim])}
        b.append(RELS[rel][1](ctx, **v))
    create(ctx, m, d, 'R', 'vertices in ' + RELS[rel][0], kind, {},
           Set(m, 0, b))


RELS = {
    'lt': ('x < 0.25', lambda c, x, **k: x < 0.25),
    'ge': ('(y >= -0.5)', lambda c, x, y, **k: y >= -0.5),
    'and': ('(x > 0.25) & (y <= 1.5)',
            lambda c, x, y, **k: c.And(x > 0.25, y <= 1.5)),
    'or': ('((x < -1) | (y > 1.0e0))',
           lambda c, x, y, **k: c.Or(x < -1, y > 1)),
    'mix': ('((x < 0) & (y > 0)) | (y < -1)',
            lambda c, x, y, **k: c.Or(c.And(x < 0, y > 0), y < -1)),
    'xyz': ('(z > -1) & (x <= y)',
            lambda c, x, y, z: c.And(z > -1, x <= y)),
    'rev': ('(-0.5 < x)', lambda c, x, **k: x > -0.5),
}


def h_groups(ctx, key, what, n):
    """Cells or vertices of groups: n symbolic group numbers."""
    num = len(MESHES[key][what == 'cell'])
    g = np.zeros(num, dtype=np.int32)
    g = ctx.const(g) if ctx.sym else g
    g[:n] = ctx.ints('g', n, 0, 2)
    g[n:] = 1
    d = make_domain(ctx, key, {what + '_groups': g})
    if not ctx.sym:
        getattr(d.cmesh, what + '_groups')[:] = g
    m = Model(ctx, key, d)
    dim = m.td if what == 'cell' else 0
    for k in (2, 1):
        S = [x == k for x in g]
        try:
            create(ctx, m, d, 'R%d' % k, '%s of group %d'
                   % ({'cell': 'cells', 'vertex': 'vertices'}[what], k),
                   what, {}, Set(m, dim, S))
        except ValueError as exc:
            if 'does not exist' not in str(exc):
                raise
            ctx.true(ctx.Not(m.ne(S)), 'unknown group')


def h_facets(ctx, key, parent, free=None):
    """Table (cell, local facet) of a facet region."""
    d, m, fun, leaf = setup(ctx, key, [])
    td, f = m.td, m.td - 1
    sel, bits = [], []
    for e in range(m.n(f)):
        b = ctx.bool('f%d' % e) if free is None or e in free else False
        b = bool(b)
        bits.append(b)
        if b:
            sel.append(e)
    if not sel:
        return
    pc = None
    if parent:
        pc = [i for i in range(m.n(td)) if bool(ctx.bool('c%d' % i))]
        if not pc:
            return
    from sfepy.discrete.common.region import Region
    if pc is not None:
        d.create_region('P', 'cell ' + ', '.join(map(str, pc)))
    reg = Region.from_facets(np.array(sel, dtype=np.uint32), d, 'F',
                             kind='facet', parent='P' if parent else None)
    reg.finalize()
    reg.update_shape()
    fis = np.asarray(reg.get_facet_indices())
    want = set()
    order = []
    gel = d.geom_els[key[:3]]
    lf = gel.get_surface_entities()
    conn = MESHES[key][1]
    for e in sel:
        n = 0
        for c in range(m.n(td)):
            if pc is not None and c not in pc:
                continue
            for i, loc in enumerate(np.asarray(lf).reshape(len(lf), -1)):
                if frozenset(conn[c][k] for k in loc) == m.vs[f][e]:
                    want.add((c, i))
                    n += 1
        order += [e] * n
    got = [tuple(int(v) for v in r) for r in fis]
    ctx.same(len(got), len(want), 'number of facet indices')
    ctx.true(set(got) == want, 'facet indices')
    lab = [frozenset(conn[c][k] for k in np.asarray(lf[i]).reshape(-1))
           for c, i in got]
    ctx.true(lab == [m.vs[f][e] for e in order], 'order of the facets')
    cells = np.asarray(reg.get_cells(true_cells_only=False))
    ctx.same(cells.tolist(), [g[0] for g in got], 'cells of the facets')
    uc = np.array(sorted(set(cells.tolist())), dtype=np.uint32)
    ii = np.asarray(reg.get_cell_indices(uc, true_cells_only=False))
    ctx.same(cells[ii].tolist(), uc.tolist(), 'cell indices')
    ctx.raises(ValueError, lambda: reg.get_cells(), 'no true cells')
    out = [i for i in range(m.n(td)) if i not in uc]
    if out:
        ctx.raises(ValueError, lambda: reg.get_cell_indices(
            np.array(out[:1], dtype=np.uint32), true_cells_only=False),
            'cells outside')
    if pc is not None:
        P = d.regions['P']
        ii = np.asarray(P.get_cell_indices(np.array(pc[::-1],
                                                    dtype=np.uint32)))
        ctx.same(ii.tolist(), list(range(len(pc)))[::-1],
                 'indices of the parent cells')


def h_misc(ctx, key):
    """Characteristic functions, the edge graph, cell presence."""
    d, m, fun, leaf = setup(ctx, key, ['ac'])
    sel = [i for i, b in enumerate(leaf['ac'].S) if bool(b)]
    if not sel:
        return
    arr = np.array(sel, dtype=np.uint32)
    reg = d.create_region('R', text('ac'), functions={
        'ac': lambda coors, domain=None: arr})
    verts = [i for i, b in enumerate(
        m.inc(0, m.td, [i in sel for i in range(m.n(m.td))])) if b]
    for by_cell, ids, n in ((True, sel, m.n(m.td)), (False, verts, m.n(0))):
        for by_id in (False, True):
            w = np.zeros(n)
            for i in ids:
                w[i] = i + 1 if by_id else 1
            ctx.eq(reg.get_charfun(by_cell=by_cell, val_by_id=by_id), w,
                   'characteristic function')
    ctx.true(bool(reg.has_cells()), 'has cells')
    ctx.same(int(reg.get_n_cells()), len(sel), 'number of cells')
    nf = sum(m.inc(m.td - 1, m.td, [i in sel for i in range(m.n(m.td))]))
    ctx.same(int(reg.get_n_cells(is_surface=True)), int(nf),
             'number of facets')
    if m.td > 1:
        g = np.asarray(reg.get_edge_graph().todense())
        w = np.zeros((max(verts) + 1,) * 2)
        ed = m.inc(1, m.td, [i in sel for i in range(m.n(m.td))])
        for e, b in enumerate(ed):
            if b:
                i, j = sorted(m.vs[1][e])
                w[i, j] = w[j, i] = e + 1
        ctx.same(g.tolist(), w.tolist(), 'edge graph')
    from sfepy.discrete.common.region import are_disjoint
    other = d.create_region('V0', 'vertex 0', kind='vertex')
    ctx.same(bool(are_disjoint(reg, other)), 0 not in verts, 'disjoint')


def h_deps(ctx, n, parents=False):
    """Region definitions are created after those they depend on."""
    from sfepy.base.base import Struct
    names = ['A', 'B-1', 'C_2', 'D.x'][:n]
    adj = [[i != j and bool(ctx.bool('d%d_%d' % (i, j))) for j in range(n)]
           for i in range(n)]
    from sfepy.discrete.common.region import (get_dependency_graph,
                                              sort_by_dependency)
    defs = {}
    for i, nm in enumerate(names):
        deps = [names[j] for j in range(n) if adj[i][j]]
        par = None
        if parents and deps:
            par = deps.pop()
        sel = ' +v '.join(['vertex 0'] + ['r.' + x for x in deps])
        defs['sort%d' % i] = Struct(name=nm, select=sel, parent=par)
    # Is it acyclic?
    reach = [r[:] for r in adj]
    for k in range(n):
        for i in range(n):
            for j in range(n):
                reach[i][j] = reach[i][j] or (reach[i][k] and reach[k][j])
    cyc = any(reach[i][i] for i in range(n))
    try:
        graph, n2s = get_dependency_graph(defs)
        out = sort_by_dependency(graph)
    except ValueError:
        ctx.true(cyc, 'only circular definitions are refused')
        return
    ctx.true(not cyc, 'circular definitions are refused')
    ctx.same(sorted(out), sorted(names), 'all regions')
    pos = {x: i for i, x in enumerate(out)}
    for i in range(n):
        ctx.same(n2s[names[i]], 'sort%d' % i, 'definition names')
        for j in range(n):
            if adj[i][j]:
                ctx.true(pos[names[j]] < pos[names[i]], 'order')


def h_create_regions(ctx, key, order):
    """All definitions of a problem, in any order of the dictionary."""
    from sfepy.base.base import Struct
    d, m, fun, leaf = setup(ctx, key, ['av', 'bc'])
    for x in ('av', 'bc'):
        ctx.assume(m.ne(leaf[x].S))

    def rd(name, sel, kind='cell', parent=None):
        return Struct(name=name, select=sel, kind=kind, parent=parent)
    f = m.td - 1
    defs = [('r1', rd('Omega', 'all')),
            ('r2', rd('Om1', 'r.Omega *c ' + text('bc'))),
            ('r3', rd('Ga', 'copy r.Om1', 'facet', parent='Om1')),
            ('r4', rd('Ve', '(r.Omega -v ' + text('av') + ') +v r.Om1',
                      'vertex'))]
    defs = [defs[i] for i in order]
    c = leaf['bc'].S
    om = m.inc(0, m.td, [True] * m.n(m.td))
    want = {'Omega': Set(m, m.td, [True] * m.n(m.td)).final('cell'),
            'Om1': Set(m, m.td, c).final('cell'),
            'Ga': Set(m, f, m.inc(f, m.td, c)).final('facet'),
            'Ve': Set(m, 0, [ctx.Or(ctx.And(o, ctx.Not(a)), v) for a, o, v
                             in zip(leaf['av'].S, om, m.inc(0, m.td, c))]
                      ).final('vertex')}
    ctx.assume(m.ne([ctx.And(o, ctx.Not(a))
                     for o, a in zip(om, leaf['av'].S)]))
    regs = d.create_regions(dict(defs), functions=fun)
    ctx.same(sorted(r.name for r in regs), sorted(want), 'names')
    for r in regs:
        check_region(ctx, m, r, want[r.name], r.name)
        ctx.same(r.parent, 'Om1' if r.name == 'Ga' else None, 'parent')


def warm():
    from symx import driver
    for key in MESHES:
        ctx = driver.Ctx('conc')
        make_domain(ctx, key)
    h_deps(driver.Ctx('conc'), 3)
    h_misc(driver.Ctx('conc'), '2_3')


def cases(tier):
    out = []

    def add(name, h, **kw):
        opts = {k: kw.pop(k) for k in ('thorough_only', 'budget',
                                       'max_paths') if k in kw}
        opts.setdefault('max_paths', 5000)
        out.append(Case(name, h, kw, **opts))
    for key in MESHES:
        td = TD[key]
        kinds = ['cell', 'facet', 'vertex', 'cell_only', 'facet_only',
                 'vertex_only']
        if td > 1:
            kinds += ['edge', 'edge_only']
        if td > 2:
            kinds += ['face', 'face_only']
        for kind in kinds:
            for nm in ('av', 'ac'):
                add('leaf %s %s %s' % (key, nm, kind), 'h_leaf', key=key,
                    nm=nm, kind=kind)
        for kind in ('cell', 'facet', 'vertex'):
            add('leaf empty %s %s' % (key, kind), 'h_leaf', key=key, nm='av',
                kind=kind, allow=True)
        codes = 'vcs' + ('e' if td > 1 else '') + ('f' if td > 2 else '')
        k2 = ['cell', 'facet', 'vertex', 'facet_only']
        nk = 0
        for c in codes:
            for o in '+-*':
                for a, b in (('av', 'bv'), ('ac', 'bv'), ('av', 'bc'),
                             ('ac', 'bc')):
                    nk += 1
                    own = {'v': 'vertex', 'c': 'cell', 's': 'facet',
                           'e': 'edge', 'f': 'face'}[c]
                    for kind in dict.fromkeys((own, k2[nk % 4])):
                        add('ops %s %s %s%s %s %s' % (key, a, o, c, b, kind),
                            'h_ops', key=key, expr=(a, o + c, b), kind=kind)
        add('ops empty %s' % key, 'h_ops', key=key, expr=('av', '-v', 'bv'),
            kind='vertex', allow=True)
        for i, (e, kind) in enumerate([
                ((('av', '-v', 'bv'), '+c', 'cc'), 'cell'),
                (('ac', '*s', ('bc', '-v', 'cv')), 'facet'),
                ((('ac', '+s', 'bv'), '-c', 'cc'), 'cell'),
                ((('ac', '*c', 'bc'), '-s', ('cv', '*v', 'av')), 'facet'),
                (('av', '-v', ('bv', '-v', 'cv')), 'vertex'),
                ((('av', '-v', 'bv'), '-v', 'cv'), 'vertex')]):
            add('ops %s nested %d' % (key, i), 'h_ops', key=key, expr=e,
                kind=kind)
        for code in ('+v', '*v', '+c', '*c', '+s', '*s'):
            add('chain %s %s' % (key, code), 'h_chain', key=key,
                nms=['ac', 'bc', 'cc'] if code[1] in 'cs'
                else ['av', 'bv', 'cv'], code=code)
        for ka, kb, code, kind, extra in (
                ('cell', 'cell', '-c', 'cell', None),
                ('cell', 'facet', '*v', 'vertex', None),
                ('facet', 'facet', '-s', 'facet', None),
                ('facet', 'cell', '*s', 'facet', '+s'),
                ('vertex', 'facet', '+v', 'vertex', '-v'),
                ('facet', 'vertex', '-v', 'vertex', None),
                ('cell', 'cell', '*s', 'facet', '-s')):
            add('named %s %s %s %s %s' % (key, ka, code, kb, extra),
                'h_named', key=key, ka=ka, kb=kb, code=code, kind=kind,
                extra=extra)
        add('surface %s' % key, 'h_surface', key=key)
        add('lists %s' % key, 'h_lists', key=key,
            n=2 if len(MESHES[key][0]) > 6 else 3)
        for dim in sorted({0, td - 1, td}):
            for kind in (('cell', 'facet', 'vertex') if dim == 0 else
                         ('cell',) if dim == td else
                         ('cell', 'facet', 'facet_only')):
                add('from %s %d %s' % (key, dim, kind), 'h_from', key=key,
                    dim=dim, kind=kind)
        if td < 3 or key == '3_4':
            add('groups cells %s' % key, 'h_groups', key=key, what='cell',
                n=min(3, len(MESHES[key][1])))
            add('groups vertices %s' % key, 'h_groups', key=key,
                what='vertex', n=3)
            add('misc %s' % key, 'h_misc', key=key)
        nf = {'2_3_free': 5, '1_2': 4, '2_3': 8, '2_4': 12, '3_4': 10, '3_8': 11}[key]
        free = list(range(nf)) if nf <= 8 else list(range(0, nf, 2))
        add('facets %s' % key, 'h_facets', key=key, parent=False, free=free)
        add('facets parent %s' % key, 'h_facets', key=key, parent=True,
            free=free[:5])
        for i, order in enumerate(((0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1))):
            add('all %s %d' % (key, i), 'h_create_regions', key=key,
                order=order)
    for rel, key, n, kind in (('lt', '1_2', 4, 'vertex'),
                              ('rev', '1_2', 4, 'cell'),
                              ('ge', '2_3', 4, 'facet'),
                              ('and', '2_3', 3, 'facet'),
                              ('or', '2_4', 3, 'vertex'),
                              ('mix', '2_3', 3, 'vertex'),
                              ('xyz', '3_4', 3, 'vertex'),
                              ('xyz', '3_8', 4, 'facet')):
        add('relation %s %s' % (rel, key), 'h_relation', key=key, rel=rel,
            n=n, kind=kind)
    add('deps 3', 'h_deps', n=3)
    add('deps 3 parents', 'h_deps', n=3, parents=True)
    add('deps 4', 'h_deps', n=4, thorough_only=True, budget=600)
    return out
