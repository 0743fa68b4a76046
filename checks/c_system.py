"""Constrained systems of equations: the reduced residual and matrix are the
projections of the sum of all element contributions."""
import numpy as np
import fe

PROPERTY = 'C05'
BOUNDS = ('2x2 and 3x1 quadrilateral and 2x1x1 hexahedral meshes, orders 1-2; '
          'one or two coupled fields (up to 60 DOFs); all active DOFs in '
          '[-1, 1] and prescribed values symbolic; the listed combinations '
          'of conditions')
OUTSIDE = 'discontinuous Galerkin fields, contact, parallel assembling'


def grid(nx, ny, nz=None):
    """Non-uniform but matching opposite sides."""
    xs = [0, 1.0, 1.75, 3.0][:nx + 1]
    ys = [0, 0.75, 2.0, 2.5][:ny + 1]
    zs = [0, 1.25, 2.0][:nz + 1] if nz else None
    if nz is None:
        co = [[x, y] for x in xs for y in ys]
        def ii(i, j):
            return i * (ny + 1) + j
        el = [[ii(i, j), ii(i + 1, j), ii(i + 1, j + 1), ii(i, j + 1)]
              for i in range(nx) for j in range(ny)]
        return np.array(co, dtype=float), el, '2_4'
    co = [[x, y, z] for x in xs for y in ys for z in zs]

    def ii(i, j, k):
        return (i * (ny + 1) + j) * (nz + 1) + k
    el = [[ii(i, j, k), ii(i + 1, j, k), ii(i + 1, j + 1, k),
           ii(i, j + 1, k), ii(i, j, k + 1), ii(i + 1, j, k + 1),
           ii(i + 1, j + 1, k + 1), ii(i, j + 1, k + 1)]
          for i in range(nx) for j in range(ny) for k in range(nz)]
    return np.array(co, dtype=float), el, '3_8'


def make_domain(mesh, skew=0.0):
    from sfepy.discrete.fem import Mesh, FEDomain
    co, el, desc = grid(*mesh)
    if skew:
        # keeps the sides flat and matching
        x, y = co[:, 0], co[:, 1]
        co = co.copy()
        co[:, 1] = y + skew * x
    m = Mesh.from_data('m', co, None, [np.array(el, dtype=np.int32)],
                       [np.zeros(len(el), dtype=np.int32)], [desc])
    d = FEDomain('d', m)
    d.create_region('Omega', 'all')
    L, R = co[:, 0].min(), co[:, 0].max()
    eps = 1e-6
    d.create_region('Left', 'vertices in (x < %r)' % float(L + eps), 'facet')
    d.create_region('Right', 'vertices in (x > %r)' % float(R - eps), 'facet')
    if True:
        B, T = (co[:, 1] - skew * co[:, 0]).min(), \
            (co[:, 1] - skew * co[:, 0]).max()
        q = co[:, 1] - skew * co[:, 0]
        for name, ii in (('Bottom', q < B + eps), ('Top', q > T - eps)):
            d.create_region(name, 'vertex ' + ', '.join(
                str(k) for k in np.where(ii)[0]), 'facet')
    d.create_region('N0', 'vertex 1', 'vertex')
    d.create_region('Corner', 'vertex 0', 'vertex')
    d.create_region('Gamma', 'vertices of surface', 'facet')
    if len(mesh) == 3:
        d.create_region('Edge', 'vertex ' + ', '.join(
            str(k) for k in side(co, 'Edge', skew)), 'edge')
    d.create_region('Corners', 'vertex ' + ', '.join(
        str(k) for k in side(co, 'Corners', skew)), 'vertex')
    d.create_region('N1', 'vertex %d' % (len(co) - 1), 'vertex')
    d.create_region('N2', 'vertex %d, %d' % (len(co) - 2, len(co) - 3),
                    'vertex')
    return d


def fields(domain, spec):
    from sfepy.discrete import FieldVariable
    from sfepy.discrete.fem import Field
    out = {}
    for name, (shape, order, rn) in spec.items():
        f = Field.from_args('f' + name, np.float64, shape,
                            domain.regions[rn], approx_order=order)
        out[name] = FieldVariable(name, 'unknown', f)
        out['v' + name] = FieldVariable('v' + name, 'test', f,
                                        primary_var_name=name)
    return out


def equations(kind, vs, domain, mat):
    from sfepy.discrete import Equation, Equations, Integral
    from sfepy.terms import Term
    i = Integral('i', order=2)
    O = domain.regions['Omega']
    G = domain.regions['Right']

    def T(s, r=O, **kw):
        kw.update(vs)
        kw['m'] = mat
        names = [a.strip().split('.')[0] for a in
                 s.replace('(', ',').replace(')', '').split(',')[1:]]
        return Term.new(s, i, r, **{n: kw[n] for n in names})
    if kind == 'u':
        eqs = [Equation('eq', T('dw_div_grad(m.nu, vu, u)')
                        + T('dw_convect(vu, u)')
                        - T('dw_surface_ltr(m.f, vu)', G))]
    elif kind == 's':
        eqs = [Equation('eq', T('dw_laplace(m.nu, vs, s)')
                        + T('dw_dot(m.nu, vs, s)', G)
                        + T('dw_dot(m.nu, vs, s)')
                        - T('dw_integrate(m.nu, vs)', G))]
    elif kind == 'us':
        eqs = [Equation('e1', T('dw_div_grad(m.nu, vu, u)')
                        - T('dw_stokes(vu, s)')),
               Equation('e2', T('dw_stokes(u, vs)')
                        + T('dw_convect_v_grad_s(vs, u, s)'))]
    elif kind == 'uw':
        eqs = [Equation('e1', T('dw_div_grad(m.nu, vu, u)')
                        + T('dw_convect(vu, u)')),
               Equation('e2', T('de_dot(m.nu, vw, w)'))]
    return Equations(eqs)


NV = [0]


def match_fun(name):
    from sfepy.discrete.fem import periodic as per
    from sfepy.discrete import Function
    return Function(name, getattr(per, name))


def value(ctx, spec, name, dim, store, nc=1):
    from sfepy.discrete import Function
    if spec == 'sym':
        v = ctx.real(name, lo=-1, hi=1)
        store.append(('const', v))
        return v
    if isinstance(spec, (int, float)):
        store.append(('const', spec))
        return spec
    # One linear function per component, node by node.
    c = ctx.real(name, (dim + 2, nc), lo=-1, hi=1)

    def fun(ts, coors, bc=None, problem=None, **kw):
        x = np.asarray(coors)
        return np.stack([c[0, i] + sum(c[k + 1, i] * x[:, k]
                                       for k in range(dim))
                         + c[dim + 1, i] * ts.time
                         for i in range(nc)], axis=1)
    store.append(('fun', c))
    return Function(name, fun)


def build(ctx, cfg):
    from sfepy.discrete import Problem, Material
    from sfepy.discrete.conditions import (
        Conditions, EssentialBC, PeriodicBC, LinearCombinationBC)
    from sfepy.discrete.fem import periodic as per
    from symx import driver
    with ctx.concrete():
        per._clear() if hasattr(per, '_clear') else None
        d = make_domain(cfg['mesh'], cfg.get('skew', 0.0))
        vs = fields(d, cfg['fields'])
    dim = d.shape.dim
    mat = Material('m', values={'nu': 0.75, 'f': np.array(
        [[0.5]] + [[0.25]] * (dim - 1))})
    eqs = equations(cfg['eqs'], vs, d, mat)
    pb = Problem('p', equations=eqs, active_only=cfg.get('active_only', True))
    R = d.regions
    info = dict(ebc=[], epbc=[], lcbc=[], time=0.0)
    ebcs, epbcs, lcbcs = [], [], []
    for k, (rn, dofs, *tm) in enumerate(cfg.get('ebcs', ())):
        tm = tm[0] if tm else None
        dd = {}
        for j, (dn, spec) in enumerate(dofs.items()):
            st = []
            dd[dn] = value(ctx, spec, 'g%d_%d' % (k, j), dim, st,
                           len(comps(vs[dn.split('.')[0]], dn)))
            info['ebc'].append((rn, dn, st[0], tm))
        ebcs.append(EssentialBC('e%d' % k, R[rn], dd, times=tm))
    for k, (r1, r2, dofs, match, *tm) in enumerate(cfg.get('epbcs', ())):
        tm = tm[0] if tm else None
        epbcs.append(PeriodicBC('p%d' % k, [R[r1], R[r2]], dofs,
                                match_fun(match), times=tm))
        info['epbc'].append((r1, r2, dofs, match, tm))
    for k, l in enumerate(cfg.get('lcbcs', ())):
        rs = [R[x] if x else None for x in l['regions']]
        m = l.get('match')
        args = l.get('args')
        if callable(args):
            args = args(ctx, info, len(comps(
                vs[list(l['dofs'])[0].split('.')[0]], list(l['dofs'])[0])))
        if isinstance(m, str):
            m = match_fun(m)
        elif m is not None:
            from sfepy.discrete import Function
            m = Function('match', m)
        lcbcs.append(LinearCombinationBC('l%d' % k, rs, l['dofs'], m,
                                         l['kind'], arguments=args,
                                         times=l.get('times')))
    pb.set_bcs(ebcs=Conditions(ebcs), epbcs=Conditions(epbcs),
               lcbcs=Conditions(lcbcs))
    return pb, vs, d, info


def node_dofs(var, rn, dom):
    """Nodes of a field lying in the vertices' span of a region, by
    coordinates (independently of the region code)."""
    return np.asarray(var.field.get_dofs_in_region(dom.regions[rn],
                                                   merge=True))


def comps(var, dn):
    name, c = dn.split('.')
    n = var.n_components
    if c == 'all':
        return list(range(n))
    if c.startswith('['):
        return [int(x) for x in c[1:-1].split(',')]
    return [int(c)]


def side(coors, rn, skew=0.0):
    eps = 1e-6
    c = np.array(coors, dtype=float)
    c[:, 1] -= skew * c[:, 0]
    if rn == 'Corners':
        return np.where(((c[:, 0] < c[:, 0].min() + eps)
                         | (c[:, 0] > c[:, 0].max() - eps))
                        & ((c[:, 1] < c[:, 1].min() + eps)
                           | (c[:, 1] > c[:, 1].max() - eps)))[0]
    if rn == 'Edge':
        a, b, e = c[:, 1] < eps, c[:, 2] < eps, c[:, 0] > c[:, 0].max() - eps
        return np.where(a & (b | e))[0]
    if rn == 'Left':
        return np.where(c[:, 0] < c[:, 0].min() + eps)[0]
    if rn == 'Right':
        return np.where(c[:, 0] > c[:, 0].max() - eps)[0]
    if rn == 'Bottom':
        return np.where(c[:, 1] < c[:, 1].min() + eps)[0]
    if rn == 'Top':
        return np.where(c[:, 1] > c[:, 1].max() - eps)[0]
    if rn == 'Corner':
        return np.array([0])
    if rn == 'N0':
        return np.array([1])
    if rn == 'N1':
        return np.array([len(c) - 1])
    if rn == 'Omega':
        return np.arange(len(c))
    if rn == 'Gamma':
        out = np.zeros(len(c), dtype=bool)
        for k in range(c.shape[1]):
            out |= (c[:, k] < c[:, k].min() + eps) \
                | (c[:, k] > c[:, k].max() - eps)
        return np.where(out)[0]
    raise ValueError(rn)


def full_parts(pb, vec):
    """name -> full DOF vector of the variable."""
    out = {}
    for var in pb.equations.variables.iter_state(ordered=True):
        out[var.name] = np.asarray(pb.equations.variables.get_vec_part(
            vec, var.name)).reshape((-1, var.n_components))
    return out


def element_sum(pb, ctx, n_tot, offs, diff=False):
    """The full residual: sum of element contributions of all terms."""
    r = np.zeros(n_tot, dtype=object)
    for eq in pb.equations:
        for term in eq.terms:
            vals, iels, st = term.evaluate(mode='weak', standalone=False,
                                           ret_status=True)
            ctx.true(st == 0, 'status')
            vvar = term.get_virtual_variable()
            name = vvar.primary_var_name
            econn = vvar.field.get_econn(term.get_dof_conn_type(vvar.name),
                                         term.region, None)
            nc = vvar.n_components
            conn = np.concatenate([econn * nc + ic for ic in range(nc)],
                                  axis=1) + offs[name]
            v = np.asarray(vals)
            for k, iel in enumerate(np.asarray(iels)):
                for j in range(conn.shape[1]):
                    r[conn[iel, j]] = r[conn[iel, j]] + v[k, 0, j, 0]
    return r


def dense(m):
    out = np.zeros(m.shape, dtype=object)
    for i in range(m.shape[0]):
        for k in range(m.indptr[i], m.indptr[i + 1]):
            out[i, m.indices[k]] = out[i, m.indices[k]] + m.data[k]
    return out


def h(ctx, cfg):
    pb, vs, d, info = build(ctx, CFG[cfg])
    history(ctx, pb, vs, d, info, CFG[cfg])


def history(ctx, pb, vs, d, info, cfg, more=None):
    from sfepy.solvers.ts import TimeStepper
    if 'steps' not in cfg:
        return system(ctx, pb, vs, d, info, cfg, more=more)
    for k, step in enumerate(cfg['steps']):
        ts = TimeStepper(0.0, 3.0, n_step=4)
        ts.set_step(step)
        system(ctx, pb, vs, d, info, cfg, tag=' #%d' % k, more=more, ts=ts)


def system(ctx, pb, vs, d, info, cfg, tag='', more=None,
           ts=None):
    if ts is None:
        pb.time_update()
    else:
        pb.time_update(ts)
        info['time'] = ts.time
    pb.equations.init_state()
    pb.update_materials()
    ev = pb.get_evaluator()
    V = pb.equations.variables
    n_red = V.lcdi.n_dof_total if V.has_lcbc else V.adi.n_dof_total
    if not pb.active_only:
        n_red = V.di.n_dof_total
    x = ctx.real('x' + tag, n_red, lo=-1, hi=1)
    n_tot = V.di.n_dof_total
    offs = {v.name: V.di.indx[v.name].start for v in V.iter_state()}
    full = []

    def res(xx):
        if pb.active_only:
            full.append(ev.make_full_vec(xx))
        else:
            full.append(xx)
        return ev.eval_residual(xx)

    if not pb.active_only:
        x = np.asarray(x).copy() if not ctx.sym else x.copy()
    R, J = ctx.derivative(res, x)
    xf = full[0]
    parts = full_parts(pb, xf)
    constraints(ctx, vs, d, info, cfg, parts, tag)
    # Galerkin projection
    P = projection(ctx, ev, pb, n_red, n_tot)
    if more is not None:
        more(parts, P, n_red)
    if pb.active_only and not V.has_lcbc:
        ctx.eq(V.reduce_vec(xf), x, 'reduced state' + tag)
        ctx.eq(V.make_full_vec(x, vec=fe.ctx_wrap(ctx, np.full(
            n_tot, 7.0, dtype=object if ctx.sym else float))), xf, 'full state in a buffer' + tag)
        w = ctx.real('w' + tag, n_tot, lo=-1, hi=1)
        w2 = w.copy()
        V.apply_ebc(w2)
        constraints(ctx, vs, d, info, cfg, full_parts(pb, w2),
                    ' apply_ebc' + tag)
        free = [i for i in range(n_tot) if (np.abs(P[i]).sum() == 1)
                and (np.abs(P[:, P[i].argmax()]).sum() == 1)]
        ctx.eq(w2[free], w[free], 'free DOFs' + tag)
    ev.eval_residual(x)  # sets the variables
    r = element_sum(pb, ctx, n_tot, offs)
    R2 = np.zeros(n_red, dtype=object)
    for i in range(n_tot):
        for j in np.nonzero(P[i])[0]:
            R2[j] = R2[j] + float(P[i, j]) * r[i]
    fixed = np.zeros(n_red, dtype=bool)
    if not pb.active_only:
        fixed = np.array([not np.any(P[:, j]) for j in range(n_red)])
        keep = ~fixed
    else:
        keep = np.ones(n_red, dtype=bool)
    ctx.eq(np.asarray(R)[keep], R2[keep], 'residual' + tag)
    if not pb.active_only:
        ctx.eq(np.asarray(R)[fixed], np.zeros(fixed.sum()),
               'residual of fixed DOFs' + tag)
    # the matrix
    A = pb.mtx_a
    if ctx.sym:
        from symx import symnp as N
        A.data = N.wrap(N.A(np.asarray(A.data)))
    M = ev.eval_tangent_matrix(x, A)
    M = dense(M)
    J = np.asarray(J)
    kk = np.ix_(keep, keep)
    ctx.true(M.shape == (n_red, n_red), 'shape' + tag)
    G = pb.equations.create_matrix_graph(chunk_size=1, verbose=False,
                                         active_only=pb.active_only)
    ctx.true(G.shape == A.shape
             and np.array_equal(np.asarray(G.indptr), np.asarray(A.indptr))
             and np.array_equal(np.asarray(G.indices),
                                np.asarray(A.indices)),
             'chunked matrix graph' + tag)
    ctx.eq(M[kk], J[kk], 'matrix' + tag, rtol=1e-5)
    if not pb.active_only:
        ctx.eq(M[np.ix_(keep, fixed)], np.zeros((keep.sum(), fixed.sum())),
               'columns of fixed DOFs' + tag)


    if pb.active_only and not V.has_lcbc and 'steps' not in cfg:
        bt = pb.equations.eval_residuals(xf, by_terms=True)
        ctx.eq(sum_all(pb, bt, n_red), R2, 'residual by terms')
        A2 = type(A)((np.zeros(len(A.indices)), A.indices, A.indptr),
                     shape=A.shape)
        if ctx.sym:
            A2.data = N.wrap(N.A(np.zeros(len(A.indices), dtype=object)))
        bt = pb.equations.eval_tangent_matrices(xf, A2, by_terms=True)
        bt = {k: dense(m) for k, m in bt.items()}
        ctx.eq(sum_all(pb, bt, (n_red, n_red)), J, 'matrix by terms',
               rtol=1e-5)


def sum_all(pb, d, shape):
    out = np.zeros(shape, dtype=object)
    V = pb.equations.variables
    for (ename, it), v in d.items():
        vn = pb.equations[ename].terms[it].get_virtual_variable()
        ii = V.adi.indx[vn.primary_var_name]
        out[ii] = out[ii] + np.asarray(v)
    return out


def projection(ctx, ev, pb, n_red, n_tot):
    """d full / d reduced (constant)."""
    if pb.active_only:
        f0 = ev.make_full_vec(np.zeros(n_red))
        P = np.zeros((n_tot, n_red))
        for j in range(n_red):
            e = np.zeros(n_red)
            e[j] = 1.0
            P[:, j] = fe.floats(ctx, ev.make_full_vec(e) - f0)
        return P
    V = pb.equations.variables
    P = np.eye(n_tot)
    for v in V.iter_state():
        em = v.eq_map
        o = V.di.indx[v.name].start
        P[o + em.eq_ebc] = 0.0
        for m, s in zip(em.master, em.slave):
            P[o + m] = P[o + s]
    return P


def active(times, t):
    return times is None or any(a <= t < b for a, b in times)


def constraints(ctx, vs, d, info, cfg, parts, tag=''):
    for rn, dn, (kind, c), times in info['ebc']:
        if not active(times, info['time']):
            continue
        var = vs[dn.split('.')[0]]
        X = np.asarray(var.field.get_coor(), dtype=float)
        u = parts[var.name]
        for n in side(X, rn):
            for ii, ic in enumerate(comps(var, dn)):
                g = c if kind == 'const' else c[0, ii] + sum(
                    c[k + 1, ii] * float(X[n, k]) for k in range(X.shape[1])
                ) + c[X.shape[1] + 1, ii] * info['time']
                ctx.eq(u[n, ic], g, 'EBC %s %s' % (rn, dn) + tag)
    for r1, r2, dofs, match, times in info['epbc']:
        if not active(times, info['time']):
            continue
        (dn1, dn2), = dofs.items()
        v1, v2 = vs[dn1.split('.')[0]], vs[dn2.split('.')[0]]
        X1 = np.asarray(v1.field.get_coor(), dtype=float)
        X2 = np.asarray(v2.field.get_coor(), dtype=float)
        ax = 1 - int(match == 'match_y_line' or match == 'match_y_plane')
        ax = {'match_x_line': 0, 'match_y_line': 1, 'match_x_plane': 0,
              'match_y_plane': 1, 'match_z_plane': 2}[match]
        # match_x_line: match lines of the same x coordinates
        keepax = [k for k in range(X1.shape[1]) if k != ax] \
            if match.endswith('plane') else [ax]
        for n in side(X1, r1):
            m = [k for k in side(X2, r2)
                 if np.allclose(X1[n, keepax], X2[k, keepax])]
            if len(m) != 1:
                ctx.true(False, 'matching node')
                continue
            for c1, c2 in zip(comps(v1, dn1), comps(v2, dn2)):
                ctx.eq(parts[v1.name][n, c1], parts[v2.name][m[0], c2],
                       'EPBC %s %s' % (r1, r2) + tag)


U1 = {'u': (2, 1, 'Omega')}
S1 = {'s': (1, 1, 'Omega')}
US = {'u': (2, 2, 'Omega'), 's': (1, 1, 'Omega')}
US1 = {'u': (2, 1, 'Omega'), 's': (1, 1, 'Omega')}

CFG = {
    'none_u': dict(mesh=(2, 1), fields=U1, eqs='u'),
    'ebc_u': dict(mesh=(2, 2), fields=U1, eqs='u', ebcs=[
        ('Left', {'u.all': 'sym'})]),
    'ebc_comp': dict(mesh=(2, 2), fields=U1, eqs='u', ebcs=[
        ('Left', {'u.0': 'sym'}), ('Right', {'u.1': 'fun'})]),
    'ebc_two': dict(mesh=(2, 1), fields=U1, eqs='u', ebcs=[
        ('Left', {'u.1': 'sym', 'u.0': 'fun'}),
        ('Right', {'u.all': 'fun'})]),
    'ebc_us': dict(mesh=(2, 1), fields=US1, eqs='us', ebcs=[
        ('Left', {'u.all': 'fun', 's.0': 'sym'}), ('Right', {'u.0': 0.0})]),
    'ebc_us2': dict(mesh=(1, 1), fields=US, eqs='us', ebcs=[
        ('Left', {'u.all': 'fun'}), ('Right', {'s.all': 0.25})]),
    'epbc_s': dict(mesh=(2, 2), fields=S1, eqs='s', epbcs=[
        ('Left', 'Right', {'s.all': 's.all'}, 'match_y_line')]),
    'epbc_u': dict(mesh=(3, 2), fields=U1, eqs='u', epbcs=[
        ('Left', 'Right', {'u.all': 'u.all'}, 'match_y_line')], ebcs=[
        ('Bottom', {'u.0': 'sym'})]),
    'epbc_xy': dict(mesh=(2, 2), fields=U1, eqs='u', epbcs=[
        ('Left', 'Right', {'u.0': 'u.0'}, 'match_y_line'),
        ('Bottom', 'Top', {'u.1': 'u.1'}, 'match_x_line')]),
    'epbc_corner': dict(mesh=(2, 2), fields=S1, eqs='s', epbcs=[
        ('Left', 'Right', {'s.all': 's.all'}, 'match_y_line'),
        ('Bottom', 'Top', {'s.all': 's.all'}, 'match_x_line')]),
    'epbc_corner_ebc': dict(mesh=(2, 2), fields=S1, eqs='s', epbcs=[
        ('Left', 'Right', {'s.all': 's.all'}, 'match_y_line'),
        ('Bottom', 'Top', {'s.all': 's.all'}, 'match_x_line')], ebcs=[
        ('Corners', {'s.all': 'sym'})]),
    'epbc_ebc_a': dict(mesh=(2, 2), fields=S1, eqs='s', epbcs=[
        ('Left', 'Right', {'s.all': 's.all'}, 'match_y_line')],
        ebcs=[('Corner', {'s.all': 'sym'})]),
    'epbc_ebc_b': dict(mesh=(2, 2), fields=S1, eqs='s', epbcs=[
        ('Left', 'Right', {'s.all': 's.all'}, 'match_y_line')],
        ebcs=[('N1', {'s.all': 'sym'})]),
    'epbc_ebc_ab': dict(mesh=(2, 2), fields=U1, eqs='u', epbcs=[
        ('Right', 'Left', {'u.all': 'u.all'}, 'match_y_line'),
        ('Top', 'Bottom', {'u.1': 'u.1'}, 'match_x_line')],
        ebcs=[('Corner', {'u.1': 'sym'}), ('N1', {'u.0': 'fun'})]),
    'epbc_corner_3d': dict(mesh=(1, 1, 1), fields=S1, eqs='s', epbcs=[
        ('Left', 'Right', {'s.all': 's.all'}, 'match_x_plane'),
        ('Top', 'Bottom', {'s.all': 's.all'}, 'match_y_plane')]),
    'epbc_s2': dict(mesh=(2, 1), fields={'s': (1, 2, 'Omega')}, eqs='s',
                    epbcs=[('Left', 'Right', {'s.all': 's.all'},
                            'match_y_line')]),
    'epbc_us': dict(mesh=(2, 1), fields=US1, eqs='us', epbcs=[
        ('Left', 'Right', {'u.all': 'u.all'}, 'match_y_line'),
        ('Right', 'Left', {'s.all': 's.all'}, 'match_y_line')],
        ebcs=[('Top', {'u.1': 'sym'})]),
    'full_ebc': dict(mesh=(2, 2), fields=U1, eqs='u', active_only=False,
                     ebcs=[('Left', {'u.all': 'sym'}),
                           ('Right', {'u.1': 'fun'})]),
    'full_us': dict(mesh=(2, 1), fields=US1, eqs='us', active_only=False,
                    ebcs=[('Left', {'u.all': 'fun', 's.0': 'sym'})]),
    'hist_ebc': dict(mesh=(2, 2), fields=U1, eqs='u', steps=[0, 1, 2, 0],
                     ebcs=[('Left', {'u.all': 'fun'}, [(0.0, 1.5)]),
                           ('Right', {'u.0': 'fun'}, [(1.0, 3.0)])]),
    'hist_same': dict(mesh=(2, 2), fields=U1, eqs='u', steps=[0, 1, 3],
                      ebcs=[('Left', {'u.all': 'fun'}),
                            ('Right', {'u.0': 'sym'}),
                            ('Right', {'u.1': 'fun'})]),
    'hist_swap': dict(mesh=(2, 2), fields=U1, eqs='u', steps=[0, 1],
                      ebcs=[('Left', {'u.all': 'fun'}, [(0.0, 1.0)]),
                            ('Right', {'u.all': 'fun'}, [(1.0, 2.0)])]),
    'hist_epbc': dict(mesh=(2, 1), fields=US1, eqs='us', steps=[0, 1, 2],
                      epbcs=[('Left', 'Right', {'s.all': 's.all'},
                              'match_y_line', [(1.0, 2.0)])],
                      ebcs=[('Left', {'u.all': 'fun'})]),
    'hist_full': dict(mesh=(2, 1), fields=U1, eqs='u', steps=[0, 1, 2],
                      active_only=False,
                      ebcs=[('Left', {'u.all': 'fun'}, [(0.0, 1.5)]),
                            ('Right', {'u.0': 'fun'}, [(1.0, 3.0)])]),
    'ebc_3d': dict(mesh=(1, 1, 1), fields={'u': (3, 1, 'Omega')}, eqs='u',
                   ebcs=[('Left', {'u.all': 'fun'}),
                         ('Right', {'u.[0,2]': 'sym'})]),
    'epbc_3d': dict(mesh=(2, 1, 1), fields={'s': (1, 1, 'Omega')}, eqs='s',
                    epbcs=[('Left', 'Right', {'s.all': 's.all'},
                            'match_x_plane')], ebcs=[
                        ('Bottom', {'s.all': 'sym'})]),
}


def warm():
    fe.warm(('2_4_1',))


def cases(tier):
    from symx.runner import Case
    return [Case(k, 'h', dict(cfg=k)) for k in CFG]
