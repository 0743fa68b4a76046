"""Linear combination boundary conditions: the full state satisfies the
constraints and the reduced system is the Galerkin projection."""
import numpy as np
import fe
import c_system as S

PROPERTY = 'C15'
BOUNDS = ('meshes of 1 to 4 quadrilaterals or 1 to 2 hexahedra, order 1 '
          '(order 2 for one case), all kinds of linear combination '
          'conditions except those listed outside, alone and combined with '
          'essential and periodic conditions; all reduced DOFs in [-1, 1], '
          'prescribed values and shifts symbolic')
OUTSIDE = 'curved boundaries; rotations of shells'


def reg(d, l):
    return [d.regions[x] if x else None for x in l['regions']]


def nodes_of(var, rname, skew=0.0):
    X = np.asarray(var.field.get_coor(), dtype=float)
    if rname == 'Corner':
        return np.array([0]), X
    if rname == 'N1':
        return np.array([S.NV[0] - 1]), X
    if rname == 'N2':
        return np.array([S.NV[0] - 3, S.NV[0] - 2]), X
    return S.side(X, rname, skew), X


def spin(x, r):
    """Infinitesimal rotation."""
    if len(x) == 2:
        return [-r[0] * x[1], r[0] * x[0]]
    return [r[1] * x[2] - r[2] * x[1], r[2] * x[0] - r[0] * x[2],
            r[0] * x[1] - r[1] * x[0]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def normals(X, rname, skew):
    """Averages of the unit normals of the adjacent facets."""
    eps = 1e-6
    Y = X.copy()
    Y[:, 1] -= skew * X[:, 0]
    lo, hi = Y.min(axis=0), Y.max(axis=0)
    top = np.zeros(X.shape[1])
    top[0], top[1] = -skew, 1.0
    top /= np.linalg.norm(top)
    N = {}
    for k in S.side(X, rname, skew):
        n = np.zeros(X.shape[1])
        for ax in range(X.shape[1]):
            d = np.zeros(X.shape[1])
            d[ax] = 1.0
            if ax == 1:
                d = top
            if Y[k, ax] < lo[ax] + eps and (
                    rname == 'Gamma' or (rname, ax) in (('Left', 0),
                                                        ('Bottom', 1))):
                n -= d
            if Y[k, ax] > hi[ax] - eps and (
                    rname == 'Gamma' or (rname, ax) in (('Right', 0),
                                                        ('Top', 1))):
                n += d
        N[k] = n / np.linalg.norm(n)
    return N


def oracle(ctx, l, vs, parts, cfg, info, skip=()):
    kind = l['kind']
    (dn1, dn2), = l['dofs'].items()
    v1 = vs[dn1.split('.')[0]]
    n1, X1 = nodes_of(v1, l['regions'][0], cfg.get('skew', 0.0))
    u1 = parts[v1.name]
    c1 = S.comps(v1, dn1)
    dim = X1.shape[1]
    tag = kind
    if dn2 is not None:
        v2 = vs[dn2.split('.')[0]]
        n2, X2 = nodes_of(v2, l['regions'][1], cfg.get('skew', 0.0))
        u2 = parts[v2.name]
        c2 = S.comps(v2, dn2)
    if kind == 'rigid':
        for a in range(len(n1)):
            for b in range(a):
                i, j = n1[a], n1[b]
                ctx.eq(dot(u1[i] - u1[j], X1[i] - X1[j]), 0.0, tag)
    elif kind == 'rigid_twist':
        sname, anchor, axis, thread = l['args']
        ns, _ = nodes_of(v1, sname)
        axis = np.array(axis)
        # Each region moves rigidly, and the relative motion is a screw.
        for nn in (n1, ns):
            for a in range(len(nn)):
                for b in range(a):
                    i, j = nn[a], nn[b]
                    ctx.eq(dot(u1[i] - u1[j], X1[i] - X1[j]), 0.0,
                           tag + ' rigid')
        # the rigid motion of a region (rotation about the anchor)
        T1, r1 = rigid_motion(n1, X1, u1, anchor)
        T2, r2 = rigid_motion(ns, X1, u1, anchor)
        dr = [b - a for a, b in zip(r1, r2)]
        dT = [b - a for a, b in zip(T1, T2)]
        phi = dot(dr, axis)
        for k in range(3):
            ctx.eq(dr[k], phi * axis[k], tag + ' rotation')
            ctx.eq(dT[k], thread * phi * axis[k], tag + ' advance')
    elif kind == 'rigid2':
        i0 = n2[0]
        for i in n1:
            r = u2[i0, dim:] if len(c2) > dim else None
            w = spin(X1[i] - X2[i0], r) if r is not None else [0] * dim
            for k in range(dim):
                ctx.eq(u1[i, k], u2[i0, k] + w[k], tag)
    elif kind == 'average_force':
        # Independent nodes: the first region.
        i0 = n2[0]
        W = l.get('weights')
        n = len(n1)
        w = np.ones(n) if W is None else np.asarray(W)
        if len(c2) == dim:
            for k in range(dim):
                ctx.eq(u2[i0, k] * float(w.sum()),
                       sum(float(w[a]) * u1[n1[a], k] for a in range(n)),
                       tag)
        else:
            sym = 3 if dim == 2 else 6
            R = [X1[a] - X2[i0] for a in n1]
            L = np.mean([np.linalg.norm(r) for r in R]) or 1.0
            A = np.zeros((sym, sym))
            rhs = np.zeros(sym, dtype=object)
            for a in range(n):
                B = np.zeros((sym, sym))
                B[:] = np.eye(sym)
                for k in range(sym - dim):
                    e = np.zeros(sym - dim)
                    e[k] = 1.0
                    B[:dim, dim + k] = spin(R[a], e)
                D = np.diag([w[a]] * dim + [w[a] * L**2] * (sym - dim))
                A += B.T @ D @ B
                BD = B.T @ D
                for k in range(sym):
                    rhs[k] = rhs[k] + dot(BD[k, :dim], u1[n1[a]])
            for k in range(sym):
                ctx.eq(dot(A[k], u2[i0]), rhs[k], tag)
    elif kind in ('no_penetration', 'normal_direction'):
        N = normals(X1, l['regions'][0], cfg.get('skew', 0.0))
        for i in n1:
            if i in skip:
                continue
            n = N[i]
            if kind == 'no_penetration':
                ctx.eq(dot(n, u1[i]), 0.0, tag)
            else:
                for k in range(dim):
                    for m in range(k):
                        ctx.eq(n[k] * u1[i, m], n[m] * u1[i, k], tag)
    elif kind == 'edge_direction':
        for i in n1:
            dd = l['dirs'][int(i)]
            for k in range(dim):
                for m in range(k):
                    ctx.eq(dd[k] * u1[i, m], dd[m] * u1[i, k], tag)
    elif kind == 'integral_mean_value':
        for i in n1:
            for c in c1:
                ctx.eq(u1[i, c], u1[n1[0], c1[0]], tag)
    elif kind == 'nodal_combination':
        A, b = l['args'][0]
        for i in n1:
            for r in range(len(A)):
                ctx.eq(dot(A[r], [u1[i, c] for c in c1]), b[r], tag)
    elif kind in ('shifted_periodic', 'match_dofs'):
        ax = {'match_x_line': 0, 'match_y_line': 1}[l['match']]
        sh = l.get('shift')
        for i in n1:
            if i in skip:
                continue
            j, = [k for k in n2 if abs(X1[i, ax] - X2[k, ax]) < 1e-8]
            for a, (p, q) in enumerate(zip(c1, c2)):
                s = 0.0
                if kind == 'shifted_periodic':
                    s = info['shift'](X2[j], a)
                ctx.eq(u1[i, p], u2[j, q] + s, tag)
    elif kind == 'multi_node_combination':
        for i, (js, ws) in l['combs'].items():
            for p, q in zip(c1, c2):
                ctx.eq(u1[n1[i], p],
                       sum(w * u2[n2[j], q] for j, w in zip(js, ws)), tag)
    else:
        raise ValueError(kind)


def rigid_motion(nodes, X, u, anchor):
    """Translation of the anchor and the rotation of a rigid 3D motion,
    from three non-collinear nodes (least squares over all of them)."""
    n = len(nodes)
    A = np.zeros((3 * n, 6))
    for a, i in enumerate(nodes):
        A[3 * a:3 * a + 3, :3] = np.eye(3)
        for k in range(3):
            e = np.zeros(3)
            e[k] = 1.0
            A[3 * a:3 * a + 3, 3 + k] = spin(X[i] - np.asarray(anchor), e)
    B = np.linalg.pinv(A)
    B[np.abs(B) < 1e-13] = 0.0
    q = [dot(B[k], [u[i, c] for i in nodes for c in range(3)])
         for k in range(6)]
    return q[:3], q[3:]


def h(ctx, cfg):
    c = CFG[cfg]
    pb, vs, d, info = S.build(ctx, c)
    S.NV[0] = d.mesh.n_nod

    def more(parts, P, n_red):
        for l in c['lcbcs']:
            if not S.active(l.get('times'), info['time']):
                continue
            oracle(ctx, l, vs, parts, c, info, skip=l.get('skip', ()))
        if 'n_red' in c:
            ctx.true(n_red == c['n_red'], 'number of reduced DOFs')
        if P is not None:
            ctx.true(np.linalg.matrix_rank(P) == n_red,
                     'independent reduced DOFs')
    S.history(ctx, pb, vs, d, info, c, more=more)


U1, S1, US1 = S.U1, S.S1, S.US1
UU = {'u': (2, 1, 'Omega'), 'w': (3, 1, 'Omega')}
UW2 = {'u': (2, 1, 'Omega'), 'w': (2, 1, 'Omega')}
U3 = {'u': (3, 1, 'Omega')}
U3W = {'u': (3, 1, 'Omega'), 'w': (6, 1, 'Omega')}


def lc(kind, regions, dofs, args=None, match=None, **kw):
    return dict(kind=kind, regions=regions, dofs=dofs, args=args,
                match=match, **kw)


def nc(A, b, rn='Right', dofs='u.all'):
    return lc('nodal_combination', (rn, None), {dofs: None},
              args=((np.array(A, dtype=float), np.array(b, dtype=float)),))


def shift(ctx, info, nc):
    c = ctx.real('shift', (3, nc), lo=-1, hi=1)

    def fun(ts, coors, region):
        x = np.asarray(coors)
        return np.stack([c[0, i] + c[1, i] * x[:, 0] + c[2, i] * x[:, 1]
                         for i in range(nc)], axis=1)
    info['shift'] = lambda x, a: c[0, a] + c[1, a] * x[0] + c[2, a] * x[1]
    from sfepy.discrete import Function
    return (Function('shift', fun),)


def multi(combs):
    def fun(mc, sc):
        mi = np.array(sorted(combs), dtype=int)
        si = np.array([j for i in sorted(combs) for j in combs[i][0]])
        ws = np.array([combs[i][1] for i in sorted(combs)])
        return mi, si, ws
    return fun


MC = {0: ([0, 1], [0.25, 0.75]), 1: ([1, 2], [0.5, -0.75])}

CFG = {
    'rigid': dict(mesh=(2, 2), fields=U1, eqs='u', lcbcs=[
        lc('rigid', ('Right', None), {'u.all': None})], n_red=18 - 6 + 3),
    'rigid_ebc': dict(mesh=(2, 1), fields=U1, eqs='u', lcbcs=[
        lc('rigid', ('Right', None), {'u.all': None})], ebcs=[
        ('Left', {'u.all': 'fun'})], n_red=8 - 4 + 3),
    'rigid_two': dict(mesh=(3, 1), fields=U1, eqs='u', lcbcs=[
        lc('rigid', ('Right', None), {'u.all': None}),
        lc('rigid', ('Left', None), {'u.all': None})], n_red=16 - 8 + 6),
    'rigid_3d': dict(mesh=(1, 1, 1), fields=U3, eqs='u', lcbcs=[
        lc('rigid', ('Right', None), {'u.all': None})], n_red=12 + 6),
    'rigid_us': dict(mesh=(2, 1), fields=US1, eqs='us', lcbcs=[
        lc('rigid', ('Right', None), {'u.all': None})], ebcs=[
        ('Left', {'u.all': 'fun', 's.0': 'sym'})]),
    'rigid_vw': dict(mesh=(1, 1), fields=UU, eqs='uw', lcbcs=[
        lc('rigid', ('Right', None), {'u.all': None})], ebcs=[
        ('Left', {'w.all': 'fun'})]),
    'rigid_uwuw': dict(mesh=(3, 1), fields=UW2, eqs='uw', lcbcs=[
        dict(kind='rigid', regions=['Left', None], dofs={'u.all': None}),
        dict(kind='rigid', regions=['Left', None], dofs={'w.all': None}),
        dict(kind='rigid', regions=['Right', None], dofs={'u.all': None}),
        dict(kind='rigid', regions=['Right', None], dofs={'w.all': None})]),
    'mix_uwuw': dict(mesh=(2, 2), fields=UW2, eqs='uw', lcbcs=[
        dict(kind='no_penetration', regions=['Left', None],
             dofs={'u.all': None}, args=(None,)),
        dict(kind='rigid', regions=['Left', None], dofs={'w.all': None}),
        dict(kind='rigid', regions=['Right', None], dofs={'u.all': None}),
        dict(kind='integral_mean_value', regions=['Right', None],
             dofs={'w.all': None})]),
    'nopen': dict(mesh=(2, 2), fields=U1, eqs='u', lcbcs=[
        lc('no_penetration', ('Right', None), {'u.all': None},
           args=(None,))], n_red=18 - 3),
    'nopen_all': dict(mesh=(2, 1), fields=U1, eqs='u', lcbcs=[
        lc('no_penetration', ('Gamma', None), {'u.all': None},
           args=(None,))], n_red=12 - 6),
    'nopen_us': dict(mesh=(2, 1), fields=US1, eqs='us', lcbcs=[
        lc('no_penetration', ('Bottom', None), {'u.all': None},
           args=(None,))], ebcs=[('Right', {'s.all': 'sym'})]),
    'nopen_3d': dict(mesh=(1, 1, 1), fields=U3, eqs='u', lcbcs=[
        lc('no_penetration', ('Gamma', None), {'u.all': None},
           args=(None,))], n_red=24 - 8),
    'nopen_epbc': dict(mesh=(3, 1), fields=U1, eqs='u', lcbcs=[
        lc('no_penetration', ('Bottom', None), {'u.all': None},
           args=(None,))], epbcs=[
        ('Left', 'Right', {'u.all': 'u.all'}, 'match_y_line')], n_red=9),
    'nopen_skew': dict(mesh=(2, 1), fields=U1, eqs='u', skew=0.75, lcbcs=[
        lc('no_penetration', ('Bottom', None), {'u.all': None},
           args=(None,))], n_red=12 - 3),
    'nopen_skew_all': dict(mesh=(2, 1), fields=U1, eqs='u', skew=-1.75,
                           lcbcs=[
        lc('no_penetration', ('Gamma', None), {'u.all': None},
           args=(None,))], n_red=12 - 6),
    'nopen_skew_3d': dict(mesh=(1, 1, 1), fields=U3, eqs='u', skew=0.5,
                          lcbcs=[
        lc('no_penetration', ('Gamma', None), {'u.all': None},
           args=(None,))], n_red=24 - 8),
    'nopen_2': dict(mesh=(2, 1), fields={'u': (2, 2, 'Omega')}, eqs='u',
                    lcbcs=[
        lc('no_penetration', ('Right', None), {'u.all': None},
           args=(None,))], n_red=30 - 3),
    'normal_skew': dict(mesh=(2, 1), fields=U1, eqs='u', skew=0.75, lcbcs=[
        lc('normal_direction', ('Bottom', None), {'u.all': None},
           args=(None,)),
        lc('no_penetration', ('Top', None), {'u.all': None},
           args=(None,))], n_red=12 - 6),
    'edge': dict(mesh=(2, 1, 1), fields=U3, eqs='u', lcbcs=[
        lc('edge_direction', ('Edge', None), {'u.all': None},
           args=(None,), dirs={0: (1, 0, 0), 4: (1, 0, 0), 8: (1, 0, 1),
                               9: (0, 0, 1)})], n_red=36 - 8),
    'hist_rigid': dict(mesh=(2, 1), fields=U1, eqs='u', steps=[0, 1, 2],
                       lcbcs=[lc('rigid', ('Right', None), {'u.all': None},
                                 times=[(1.0, 2.0)])],
                       ebcs=[('Left', {'u.all': 'fun'})]),
    'hist_ebc': dict(mesh=(2, 1), fields=U1, eqs='u', steps=[0, 1, 2],
                     lcbcs=[lc('rigid', ('Right', None), {'u.all': None})],
                     ebcs=[('Left', {'u.all': 'fun'}, [(1.0, 2.0)])]),
    'normal': dict(mesh=(2, 2), fields=U1, eqs='u', lcbcs=[
        lc('normal_direction', ('Gamma', None), {'u.all': None},
           args=(None,))], n_red=18 - 8),
    'mean': dict(mesh=(2, 2), fields=S1, eqs='s', lcbcs=[
        lc('integral_mean_value', ('Right', None), {'s.all': None})],
        n_red=9 - 2),
    'mean_us': dict(mesh=(2, 1), fields=US1, eqs='us', lcbcs=[
        lc('integral_mean_value', ('Top', None), {'s.all': None})], ebcs=[
        ('Left', {'u.all': 'fun'})]),
    'mean_two': dict(mesh=(2, 2), fields=S1, eqs='s', lcbcs=[
        lc('integral_mean_value', ('Right', None), {'s.all': None}),
        lc('integral_mean_value', ('Left', None), {'s.all': None})],
        n_red=9 - 4),
    'nodal_1': dict(mesh=(2, 1), fields=U1, eqs='u', lcbcs=[
        nc([[1, 2]], [0.5])], n_red=12 - 2),
    'nodal_full': dict(mesh=(2, 1), fields=U1, eqs='u', lcbcs=[
        nc([[1, 2], [1, -1]], [0.5, 0.25])], n_red=12 - 4),
    'nodal_zero': dict(mesh=(2, 1), fields=U1, eqs='u', lcbcs=[
        nc([[1, 0.5]], [0])], n_red=12 - 2),
    'nodal_free': dict(mesh=(2, 1), fields=U1, eqs='u', lcbcs=[
        nc([[1, 0]], [0.5])], n_red=12 - 2),
    'nodal_3d': dict(mesh=(1, 1, 1), fields=U3, eqs='u', lcbcs=[
        nc([[1, 2, -1]], [0.5])], n_red=24 - 4),
    'nodal_3d_2': dict(mesh=(1, 1, 1), fields=U3, eqs='u', lcbcs=[
        nc([[1, 2, -1], [0, 1, 3]], [0.5, 1])], n_red=24 - 8),
    'nodal_3d_mix': dict(mesh=(1, 1, 1), fields=U3, eqs='u', lcbcs=[
        nc([[0, 1, -1]], [0.5])], n_red=24 - 4),
    'nodal_3d_fix': dict(mesh=(1, 1, 1), fields=U3, eqs='u', lcbcs=[
        nc([[1, 0, 0], [0, 2, 1]], [0.5, 0.25])], n_red=24 - 8),
    'nodal_zero_fix': dict(mesh=(1, 1, 1), fields=U3, eqs='u', lcbcs=[
        nc([[1, 0, 0], [0, 2, 1]], [0, 0])], n_red=24 - 8),
    'nodal_two': dict(mesh=(1, 1, 1), fields=U3, eqs='u', lcbcs=[
        nc([[1, 2]], [0.5], dofs='u.[0,2]')], n_red=24 - 4),
    'shift': dict(mesh=(2, 2), fields=U1, eqs='u', lcbcs=[
        lc('shifted_periodic', ('Left', 'Right'), {'u.all': 'u.all'},
           match='match_y_line', args=shift)], n_red=18 - 6),
    'shift_ebc': dict(mesh=(2, 2), fields=U1, eqs='u', lcbcs=[
        lc('shifted_periodic', ('Left', 'Right'), {'u.1': 'u.1'},
           match='match_y_line', args=shift)], ebcs=[
        ('Left', {'u.0': 'fun'})], n_red=18 - 3 - 3),
    'shift_ebc_nodes': dict(mesh=(2, 2), fields=U1, eqs='u', lcbcs=[
        lc('shifted_periodic', ('Left', 'Right'), {'u.all': 'u.all'},
           match='match_y_line', args=shift, skip=(0, 1))], ebcs=[
        ('Corner', {'u.all': 'sym'}), ('N0', {'u.0': 'sym'})], n_red=12),
    'shift_ww': dict(mesh=(1, 1), fields=UW2, eqs='uw', lcbcs=[
        lc('shifted_periodic', ('Left', 'Right'), {'u.all': 'w.all'},
           match='match_y_line', args=shift)], ebcs=[
        ('Left', {'w.0': 'sym'})]),
    'match': dict(mesh=(2, 2), fields=U1, eqs='u', lcbcs=[
        lc('match_dofs', ('Left', 'Right'), {'u.all': 'u.all'},
           match='match_y_line')], n_red=18 - 6),
    'match_uw': dict(mesh=(2, 1), fields=UW2, eqs='uw', lcbcs=[
        lc('match_dofs', ('Left', 'Right'), {'u.all': 'w.all'},
           match='match_y_line')]),
    'match_two': dict(mesh=(2, 1), fields=UW2, eqs='uw', lcbcs=[
        lc('match_dofs', ('Left', 'Right'), {'u.all': 'w.all'},
           match='match_y_line'),
        lc('rigid', ('Right', None), {'u.all': None})]),
    'multi': dict(mesh=(2, 2), fields=U1, eqs='u', lcbcs=[
        lc('multi_node_combination', ('Left', 'Right'),
           {'u.all': 'u.all'}, args=(None,), match=multi(MC), combs=MC)],
        n_red=18 - 4),
    'multi_s': dict(mesh=(2, 2), fields=S1, eqs='s', lcbcs=[
        lc('multi_node_combination', ('Left', 'Right'),
           {'s.all': 's.all'}, args=(None,), match=multi(MC), combs=MC)],
        n_red=9 - 2),
    'rigid2': dict(mesh=(2, 1), fields=U1, eqs='u', lcbcs=[
        lc('rigid2', ('Right', 'Corner'), {'u.all': 'u.all'})],
        n_red=12 - 4),
    'rigid2_rot': dict(mesh=(2, 1), fields=UU, eqs='uw', lcbcs=[
        lc('rigid2', ('Right', 'Corner'), {'u.all': 'w.all'})]),
    'rigid2_rot3': dict(mesh=(1, 1, 1), fields=U3W, eqs='uw', lcbcs=[
        lc('rigid2', ('Right', 'Corner'), {'u.all': 'w.all'})]),
    'force': dict(mesh=(2, 1), fields=U1, eqs='u', lcbcs=[
        lc('average_force', ('Right', 'Corner'), {'u.all': 'u.all'})],
        n_red=12 - 2),
    'force_rot': dict(mesh=(2, 1), fields=UU, eqs='uw', lcbcs=[
        lc('average_force', ('Right', 'Corner'), {'u.all': 'w.all'})]),
    'force_rot3': dict(mesh=(1, 1, 1), fields=U3W, eqs='uw', lcbcs=[
        lc('average_force', ('Right', 'Corner'), {'u.all': 'w.all'})]),
    'force_w': dict(mesh=(2, 1), fields=UU, eqs='uw', lcbcs=[
        lc('average_force', ('Right', 'Corner'), {'u.all': 'w.all'},
           match=lambda a, b: np.array([[0.25] * 3, [1.5] * 3]),
           weights=[0.25, 1.5])]),
    'twist': dict(mesh=(1, 1, 1), fields=U3, eqs='u', lcbcs=[
        lc('rigid_twist', ('Left', None), {'u.all': None},
           args=('Right', [0.0, 0.25, 0.5], [1.0, 0.0, 0.0], 0.25))],
        n_red=7),
    'twist_2': dict(mesh=(1, 1, 1), fields=U3, eqs='u', lcbcs=[
        lc('rigid_twist', ('Left', None), {'u.all': None},
           args=('Right', [0.0, 0.25, 0.5], [0.6, 0.0, 0.8], -0.5))],
        n_red=7),
}


def warm():
    fe.warm(('2_4_1',))


def cases(tier):
    from symx.runner import Case
    return [Case(k, 'h', dict(cfg=k)) for k in CFG]
