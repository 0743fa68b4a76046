"""Terms evaluate the integrals of their definitions: weak residuals, eval
modes, and the multilinear re-implementations against independently written
integrands, exact simplex formulas and quadrature."""
from itertools import combinations
import numpy as np
import fe

PROPERTY = 'C03'
BOUNDS = ('two-triangle (2D) and one-tetrahedron (3D) meshes with fixed '
          'dyadic coordinates, linear approximation; all DOFs of states, '
          'parameters and test functions in [-1, 1] and all material entries '
          'in [1/2, 2] symbolic')
OUTSIDE = ('higher-order approximations and curved elements (mappings and '
           'bases are the subject of other properties), fading memory, '
           'DG, contact and structural terms')


# --- independent finite elements on simplices -------------------------------

def p1_grads(X):
    """Gradients of barycentric coordinates and the volume."""
    X = np.asarray(X, dtype=np.float64)
    d = X.shape[1]
    J = (X[1:] - X[0]).T
    vol = abs(np.linalg.det(J)) / [1, 1, 2, 6][d]
    g = np.linalg.inv(J)
    return np.vstack([-g.sum(axis=0), g]), vol


def rule(n):
    """Barycentric degree 2 rule on a simplex of n vertices: (points, w)."""
    pts, ws = [], []
    for i in range(n):
        b = np.zeros(n)
        b[i] = 1
        pts.append(b)
        ws.append({2: 1 / 6, 3: 0, 4: -1 / 20}[n])
    for i, j in combinations(range(n), 2):
        b = np.zeros(n)
        b[i] = b[j] = 0.5
        pts.append(b)
        ws.append({2: 4 / 6, 3: 1 / 3, 4: 1 / 5}[n])
    return pts, ws


class Val:
    """Value and gradient of a field at a point: g[i][j] = d_j u_i."""

    def __init__(self, v, g):
        self.v, self.g = v, g

    @property
    def p(self):
        assert len(self.v) == 1
        return self.v[0]

    @property
    def gp(self):
        assert len(self.v) == 1
        return self.g[0]

    @property
    def div(self):
        return sum(self.g[i][i] for i in range(len(self.v)))

    @property
    def e(self):
        """Voigt strain, engineering shears."""
        d = len(self.v)
        out = [self.g[i][i] for i in range(d)]
        out += [self.g[i][j] + self.g[j][i]
                for i in range(d) for j in range(i + 1, d)]
        return out


def sym(a):
    d = len(a)
    return [a[i][i] for i in range(d)] \
        + [a[i][j] for i in range(d) for j in range(i + 1, d)]


def dot(a, b):
    assert len(a) == len(b)
    return sum(x * y for x, y in zip(a, b))


def mv(m, v):
    return [dot(r, v) for r in m]


def bil(m, a, b):
    return dot(a, mv(m, b))


def conv(b, u):
    """(b . grad) u"""
    return [dot(b, gi) for gi in u.g]


def ddot(a, b):
    return sum(dot(x, y) for x, y in zip(a, b))


def tr(a):
    return [list(x) for x in zip(*a)]


def flat(a):
    return [x for r in a for x in r]


def one(c):
    return 1.0 if c is None else c[0][0]


def gsym(u, kappa):
    d = len(u.v)
    k = col(kappa)
    return [u.v[i] * k[i] for i in range(d)] \
        + [u.v[i] * k[j] + u.v[j] * k[i]
           for i in range(d) for j in range(i + 1, d)]


def col(c):
    return [r[0] if isinstance(r, list) else r for r in c]


def eye(d):
    return [[1.0 * (i == j) for j in range(d)] for i in range(d)]


def full(c, d):
    """Symmetric storage to a full tensor."""
    out = [[0] * d for i in range(d)]
    k = d
    for i in range(d):
        out[i][i] = c[i]
    for i in range(d):
        for j in range(i + 1, d):
            out[i][j] = out[j][i] = c[k]
            k += 1
    return out


def iso(lam, mu, d):
    s = d * (d + 1) // 2
    m = [[0] * s for i in range(s)]
    for i in range(s):
        for j in range(s):
            if i < d and j < d:
                m[i][j] = lam
            if i == j:
                m[i][j] = m[i][j] + (2 * mu if i < d else mu)
    return m


def traction(c, v, n):
    d = len(n)
    if c is None:
        return dot(v.v, n)
    if len(c) == 1:
        return c[0][0] * dot(v.v, n)
    if len(c[0]) == d and d > 1:
        return dot(v.v, mv(c, n))
    if len(c) == d:
        return dot(v.v, col(c))
    return dot(v.v, mv(full(col(c), d), n))


def dotref(pt, c, q, p):
    n = pt.n
    if len(q.v) == len(p.v):
        if c is None or len(c) == 1:
            return one(c) * dot(q.v, p.v)
        return bil(c, q.v, p.v)
    if len(q.v) == 1:
        q, p = p, q
    return one(c) * dot(q.v, n) * p.p


# name -> integrand(pt, *args in the order of arg_types)
REF = {
    'laplace': lambda pt, c, q, p: one(c) * dot(q.gp, p.gp),
    'diffusion': lambda pt, K, q, p: bil(K, q.gp, p.gp),
    'diffusion_r': lambda pt, K, q: dot(col(K), q.gp),
    'diffusion_coupling': lambda pt, K, q, p: p.p * dot(col(K), q.gp),
    'convect_v_grad_s': lambda pt, q, u, p: q.p * dot(u.v, p.gp),
    'convect': lambda pt, *a: one(a[0] if len(a) == 3 else None)
        * dot(conv(a[-1].v, a[-1]), a[-2].v),
    'lin_convect': lambda pt, v, w, u: dot(conv(w.v, u), v.v),
    'lin_convect2': lambda pt, c, v, u: dot(conv(col(c), u), v.v),
    'adj_convect1': lambda pt, v, w, u: dot(conv(v.v, u), w.v),
    'adj_convect2': lambda pt, v, w, u: dot(conv(u.v, v), w.v),
    'div': lambda pt, c, v: one(c) * v.div,
    'div_grad': lambda pt, c, v, u: one(c) * ddot(v.g, u.g),
    'stokes': lambda pt, c, v, p: one(c) * p.p * v.div,
    'st_grad_div': lambda pt, c, v, u: one(c) * v.div * u.div,
    'st_pspg_p': lambda pt, c, q, p: one(c) * dot(q.gp, p.gp),
    'st_pspg_c': lambda pt, c, q, b, u: one(c) * dot(conv(b.v, u), q.gp),
    'st_supg_p': lambda pt, c, v, b, p: one(c) * dot(conv(b.v, v), p.gp),
    'st_supg_c': lambda pt, c, v, b, u:
        one(c) * dot(conv(b.v, v), conv(b.v, u)),
    'st_adj1_supg_p': lambda pt, c, v, w, p:
        one(c) * dot(p.gp, conv(v.v, w)),
    'st_adj2_supg_p': lambda pt, c, v, u, r:
        one(c) * dot(r.gp, conv(v.v, u)),
    'st_adj_supg_c': lambda pt, c, v, u, w:
        one(c) * (dot(conv(v.v, u), conv(u.v, w))
                  + dot(conv(u.v, u), conv(v.v, w))),
    'stokes_wave': lambda pt, k, v, u: dot(col(k), v.v) * dot(col(k), u.v),
    'stokes_wave_div': lambda pt, k, v, u: dot(col(k), v.v) * u.div,
    'lin_elastic': lambda pt, D, v, u: bil(D, v.e, u.e),
    'lin_elastic_iso': lambda pt, la, mu, v, u:
        bil(iso(one(la), one(mu), len(v.v)), v.e, u.e),
    'lin_prestress': lambda pt, s, v:
        dot(col(s), v.e) if len(s[0]) == 1 else ddot(s, v.g),
    'lin_strain_fib': lambda pt, D, d, v: dot(v.e, mv(D, [
        x * (1 if i < len(v.v) else 2) for i, x in enumerate(
            sym([[a * b for a in col(d)] for b in col(d)]))])),
    'elastic_wave': lambda pt, D, k, v, u: bil(D, gsym(v, k), gsym(u, k)),
    'elastic_wave_cauchy': lambda pt, D, k, v, u: bil(D, gsym(v, k), u.e),
    'biot': lambda pt, a, v, p: p.p * (dot(col(a), v.e)
        if len(a[0]) == 1 else ddot(a, v.g)),
    'piezo_coupling': lambda pt, g, v, p: bil(g, p.gp, v.e),
    'nonsym_elastic': lambda pt, D, v, u: bil(D, flat(v.g), flat(u.g)),
    'electric_source': lambda pt, c, s, p: one(c) * s.p * dot(p.gp, p.gp),
    'dot': dotref,
    'volume_dot': dotref, 'surface_dot': dotref,
    'bc_newton': lambda pt, a, po, q, p: one(a) * q.p * (p.p - one(po)),
    'v_dot_grad_s': lambda pt, c, v, p:
        dot(v.v, mv(c, p.gp) if c is not None and len(c) > 1
            else [one(c) * x for x in p.gp]),
    'vm_dot_s': lambda pt, c, v, p: dot(v.v, col(c)) * p.p,
    's_dot_mgrad_s': lambda pt, y, q, p: q.p * dot(col(y), p.gp),
    'advect_div_free': lambda pt, y, q, p: q.p * dot(col(y), p.gp),
    'integrate': lambda pt, c, q:
        one(c) * q.p if len(q.v) == 1 else [one(c) * x for x in q.v],
    'volume_lvf': lambda pt, f, v: dot(col(f), v.v),
    'surface_ltr': lambda pt, c, v: traction(c, v, pt.n),
    'surface_ndot': lambda pt, c, q: q.p * dot(col(c), pt.n),
    'surface_flux': lambda pt, K, q, p: q.p * dot(pt.n, mv(K, p.gp))
        if K is not None else q.p * dot(pt.n, p.gp),
    'non_penetration': lambda pt, c, v, la: one(c) * la.p * dot(v.v, pt.n),
    'non_penetration_p': lambda pt, c, v, u:
        one(c) * dot(v.v, pt.n) * dot(u.v, pt.n),
    'stokes_traction': lambda pt, c, v, u: one(c) * dot(v.v, mv(u.g, pt.n)),
    'surface_piezo_flux': lambda pt, g, q, u: q.p * dot(pt.n, mv(g, u.e)),
}

EV = {
    'ev_grad': lambda pt, c, u: [
        x for x in flat(tr(cgrad(c, u)))],
    'ev_div': lambda pt, c, u: [one(c) * u.div],
    'ev_cauchy_strain': lambda pt, u: u.e,
    'ev_cauchy_stress': lambda pt, D, u: mv(D, u.e),
    'ev_biot_stress': lambda pt, a, p: [-x * p.p for x in col(a)],
    'ev_diffusion_velocity': lambda pt, K, p: [-x for x in mv(K, p.gp)],
    'ev_piezo_stress': lambda pt, g, p: mv(tr(g), p.gp),
    'ev_piezo_strain': lambda pt, g, u: mv(g, u.e),
    'ev_integrate': lambda pt, c, u: [one(c) * x for x in u.v],
    'ev_integrate_mat': lambda pt, c, u: flat(c),
    'ev_volume': lambda pt, u: [1.0],
    'ev_surface_flux': lambda pt, K, p: [dot(pt.n, mv(K, p.gp))],
    'ev_volume_surface': lambda pt, u: [dot(pt.x, pt.n) / len(pt.n)],
    'ev_surface_moment': lambda pt, x0, u: [
        pt.n[i] * (pt.x[j] - x0[j]) for i in range(len(pt.n))
        for j in range(len(pt.n))],
    'ev_surface_piezo_flux': lambda pt, g, u: [dot(pt.n, mv(g, u.e))],
    'de_cauchy_stress': lambda pt, D, u: mv(D, u.e),
    'de_grad': lambda pt, c, u: flat(tr(cgrad(c, u))),
}


def cgrad(c, u):
    if c is None or len(c) == 1:
        return [[one(c) * x for x in r] for r in u.g]
    raise NotImplementedError


class Pt:
    pass


def integrate(s, rname, fun, data, per=None):
    """sum_e int fun; data: name -> nodal values (n_nod, nc). The
    contributions of the cells are stored in `per` by their vertices."""
    dim = s.dim
    X = np.asarray(s.domain.mesh.coors)
    X = np.array([[float(x) for x in r] for r in X])
    conn = s.domain.mesh.get_conn(s.domain.mesh.descs[0])
    tot = None
    cells = []
    if rname == 'Omega':
        for el in conn:
            cells.append((el, list(range(len(el))), None))
    else:
        cnt = {}
        for iel, el in enumerate(conn):
            for f in combinations(range(len(el)), len(el) - 1):
                cnt.setdefault(tuple(sorted(el[k] for k in f)),
                               []).append((el, list(f)))
        for k in sorted(cnt):
            if len(cnt[k]) == 1:
                cells.append(cnt[k][0] + (True,))
    for el, loc, isf in cells:
        g, vol = p1_grads(X[el])
        n = None
        if isf:
            opp = [k for k in range(len(el)) if k not in loc][0]
            n = -g[opp] / np.linalg.norm(g[opp])
            P = X[el][loc]
            if dim == 2:
                vol = np.linalg.norm(P[1] - P[0])
            else:
                vol = 0.5 * np.linalg.norm(np.cross(P[1] - P[0],
                                                    P[2] - P[0]))
            n = [float(x) for x in n]
        for b, w in zip(*rule(len(loc))):
            if w == 0:
                continue
            bb = np.zeros(len(el))
            bb[loc] = b
            pt = Pt()
            pt.n = n
            pt.x = [float(x) for x in bb.dot(X[el])]
            vals = {}
            for nm, nod in data.items():
                nc = len(nod[0])
                v = [sum(float(bb[k]) * nod[el[k]][i]
                         for k in range(len(el)) if bb[k])
                     for i in range(nc)]
                gg = [[sum(float(g[k][j]) * nod[el[k]][i]
                           for k in range(len(el)))
                       for j in range(dim)] for i in range(nc)]
                vals[nm] = Val(v, gg)
            r = fun(pt, vals)
            f = float(w * vol)
            r = [x * f for x in r] if isinstance(r, list) else r * f
            if per is not None:
                key = tuple(sorted(int(el[k]) for k in loc))
                rl = r if isinstance(r, list) else [r]
                per[key] = [a + b for a, b in zip(per[key], rl)] \
                    if key in per else rl
            if tot is None:
                tot = r
            elif isinstance(r, list):
                tot = [a + b for a, b in zip(tot, r)]
            else:
                tot = tot + r
    return tot


def nodal(vec, nc):
    vec = np.asarray(vec).reshape((-1, nc))
    return [[x for x in r] for r in vec]


def getargs(s):
    """Values of the term arguments by position."""
    out, data = [], {}
    for ii, kind in enumerate(s.kinds):
        if kind.endswith('variable'):
            v = s.virtual if kind == 'virtual_variable' \
                else s.vars.get('u%d' % ii) or s.vars['p%d' % ii]
            out.append(('v', v.name))
        elif kind.endswith('material'):
            out.append(('m', (s.matvals or {}).get(ii)))
        else:
            raise ValueError(kind)
    return out


class Setup(fe.TermSetup):
    matvals = None

    def _mat(self, ii, at, prefix, sh):
        if self.matvals is None:
            self.matvals = {}
        r = fe.TermSetup._mat(self, ii, at, prefix, sh)
        v = list(r.values())[0]
        if np.ndim(v) == 0:
            v = [[v]]
        elif np.ndim(v) == 1:
            v = [x for x in np.asarray(v)]
        else:
            v = [[x for x in row] for row in np.asarray(v)]
        self.matvals[ii] = v
        return r


def ref_of(name):
    for p in ('dw_', 'de_'):
        if name.startswith(p) and name[3:] in REF:
            return REF[name[3:]]
    return None


def apply(fun, args):
    def f(pt, vals):
        return fun(pt, *[vals[a] if k == 'v' else a for k, a in args])
    return f


def h(ctx, name, ish, iats, key, rname, nsym=None):
    from sfepy.terms import term_table
    kw = {'nsym': nsym}
    if name in ('dw_elastic_wave_cauchy',):
        # the definition assumes the symmetry of the stiffness
        def kw_fun(c, at, sh, ii):
            if at != 'material_1':
                return None
            n = sh[0]
            d = c.real('D', n * (n + 1) // 2, lo=0.5, hi=2.0)
            ij = np.zeros((n, n), dtype=int)
            ij[np.triu_indices(n)] = range(len(d))
            ij = np.maximum(ij, ij.T)
            return d[ij]
        kw['mat_fun'] = kw_fun
    s = Setup(ctx, term_table[name], ish, iats, key, rname, **kw)
    args = getargs(s)
    data = {}
    for v in s.vars.values():
        if v is getattr(s, 'virtual', None) or v.name == 'u-1':
            continue
        data[v.name] = nodal(v(), v.n_components)
    hasv = any('virtual' in a for a in s.ats)
    if hasv:
        v = s.virtual
        n = v.field.n_nod * v.n_components
        vals, iels, st = s.weak()
        ctx.true(st == 0, 'status')
        r = fe.asm_vec(s.conn(v), vals, n)
        refs = []
        for k in range(n):
            w = np.zeros(n)
            w[k] = 1.0
            data[v.name] = [[float(x) for x in row]
                            for row in w.reshape((-1, v.n_components))]
            refs.append(integrate(s, rname, apply(ref_of(name), args), data))
        ctx.eq(r, refs, 'weak form of %s' % name)
    else:
        fun = ref_of(name) or EV.get(name)
        val, st = s.eval('eval')
        per = {}
        ref = integrate(s, rname, apply(fun, args), data, per)
        got = np.asarray(val).reshape(-1)
        if not isinstance(ref, list):
            ref = [ref]
        ctx.eq(np.array(list(got)), ref, 'eval of %s' % name)
        avg(ctx, s, name, rname, per)


def avg(ctx, s, name, rname, per):
    """The evaluation modes agree: eval = sum of el_eval, el_eval =
    volume * el_avg, qp values integrate to el_eval; repeated evaluation
    gives the same value."""
    if not name.startswith(('ev_', 'de_')) or name in (
            'ev_volume_surface', 'ev_surface_moment'):
        return
    vol = None
    for v in s.vars.values():
        geo, _ = v.field.get_mapping(s.region, s.integral,
                                     s.term.geometry_types[v.name][0])
        vol = np.asarray(geo.volume).reshape(-1)
        det = np.asarray(geo.det)
    res = {}
    for mode in ('el_eval', 'el_avg', 'qp', 'eval'):
        try:
            res[mode] = np.asarray(s.eval(mode)[0])
        except (ValueError, NotImplementedError):
            pass
    tot = res['eval'].reshape(-1)
    if 'el_eval' not in res:
        return
    el = res['el_eval'].reshape((-1, len(tot)))
    ctx.eq(np.array(list(tot)), [sum(el[k, i] for k in range(len(el)))
                                 for i in range(len(tot))],
           'el_eval of %s' % name)
    if rname == 'Omega':
        keys = s.domain.mesh.get_conn(s.domain.mesh.descs[0])
    else:
        with ctx.concrete():
            cm = s.domain.cmesh
            keys = cm.get_incident(0, s.region.facets, s.dim - 1).reshape(
                (-1, s.dim))
    keys = [tuple(sorted(int(k) for k in row)) for row in keys]
    ctx.true(len(keys) == len(el), 'cells of %s' % name)
    for k, key in enumerate(keys):
        ctx.eq(el[k], per[key], 'el_eval of %s in a cell' % name)
    if 'el_avg' in res and len(el) == len(vol) \
            and name not in ('ev_volume', 'ev_integrate_mat'):
        av = res['el_avg'].reshape((-1, len(tot)))
        for k in range(len(el)):
            ctx.eq(av[k] * vol[k], el[k], 'el_avg of %s' % name)
    if 'qp' in res and len(el) == len(det):
        qp = res['qp'].reshape((len(el), -1, len(tot)))
        if qp.shape[1] == det.shape[1]:
            for k in range(len(el)):
                ctx.eq([sum(qp[k, q, i] * det[k, q, 0, 0]
                            for q in range(qp.shape[1]))
                        for i in range(len(tot))], el[k],
                       'qp of %s' % name)


def warm():
    fe.warm()





def cases(tier):
    from c_tangent import ok_shapes
    import sfepy.discrete
    from sfepy.terms import term_table
    from symx.runner import Case
    out = []
    for name, cls in sorted(term_table.items()):
        if ref_of(name) is None and name not in EV:
            continue
        ats = cls.arg_types if isinstance(cls.arg_types[0], tuple) \
            else (cls.arg_types,)
        for ia, at in enumerate(ats):
            for key in ('2_3', '3_4_1', '3_4'):
                if '_'.join(key.split('_')[:2]) not in cls.geometries:
                    continue
                for rn, kinds in (('Omega', ('cell',)),
                                  ('Gamma', ('facet', 'facet_extra'))):
                    ii = cls.integration
                    ii = ii if isinstance(ii, tuple) else (ii,)
                    if not any(k in ii for k in kinds):
                        continue
                    for ish in range(len(fe.shape_list(cls, rn))):
                        if not ok_shapes(cls, ia, ish, rn):
                            continue
                        if name == 'dw_surface_ltr' and ish == 3 and ia == 0:
                            continue  # documented: eval mode only
                        out.append(Case('%s.%d.%d.%s.%s' % (
                            name, ia, ish, key, rn), 'h', dict(
                                name=name, ish=ish, iats=ia, key=key,
                                rname=rn, nsym=5 if not any(
                                    'virtual' in a for a in at)
                                and key[0] == '3' else None), thorough_only=key == '3_4'))
    return out
