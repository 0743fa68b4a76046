"""
Helpers shared by the harnesses: small exact meshes, fields, terms.
"""
import numpy as np

# Exact (dyadic) coordinates; 'x2': two elements sharing a facet.
MESHES = {
    'unit_tet': ([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]],
                 [[0, 1, 2, 3]]),
    '1_2': ([[0.0], [1.25], [2.0]], [[0, 1], [1, 2]]),
    '1_2_1': ([[0.25], [1.5]], [[0, 1]]),
    '2_3': ([[0, 0], [1.25, 0.125], [0.25, 1], [1.5, 1.25]],
            [[0, 1, 2], [1, 3, 2]]),
    '2_3_1': ([[0, 0], [1.25, 0.125], [0.25, 1]], [[0, 1, 2]]),
    '2_4': ([[0, 0], [1.25, 0.125], [1.5, 1.25], [0.125, 1],
             [2.5, 0.25], [2.25, 1.5]],
            [[0, 1, 2, 3], [1, 4, 5, 2]]),
    '2_4_1': ([[0, 0], [1.25, 0.125], [1.5, 1.25], [0.125, 1]],
              [[0, 1, 2, 3]]),
    '3_4': ([[0, 0, 0], [1.25, 0.125, 0], [0.25, 1, 0.125],
             [0.125, 0.25, 1.5], [1.5, 1.25, 1]],
            [[0, 1, 2, 3], [1, 4, 2, 3]]),
    '3_4_1': ([[0, 0, 0], [1.25, 0.125, 0], [0.25, 1, 0.125],
               [0.125, 0.25, 1.5]], [[0, 1, 2, 3]]),
    '3_8_1': ([[0, 0, 0], [1.25, 0.125, 0], [1.5, 1.25, 0.125],
               [0.125, 1, 0], [0, 0.125, 1], [1.25, 0, 1.25],
               [1.375, 1.25, 1.125], [0.125, 1.25, 1.5]],
              [[0, 1, 2, 3, 4, 5, 6, 7]]),
    '3_8': ([[0, 0, 0], [1.25, 0.125, 0], [1.5, 1.25, 0.125],
             [0.125, 1, 0], [0, 0.125, 1], [1.25, 0, 1.25],
             [1.375, 1.25, 1.125], [0.125, 1.25, 1.5],
             [2.5, 0, 0.125], [2.25, 1.25, 0], [2.375, 0.25, 1],
             [2.5, 1.125, 1.25]],
            [[0, 1, 2, 3, 4, 5, 6, 7], [1, 8, 9, 2, 5, 10, 11, 6]]),
    '3_2_4_1': ([[0, 0, 0], [1.25, 0.125, 0.125], [1.5, 1.25, 0.25],
                 [0.125, 1, 0]], [[0, 1, 2, 3]]),
    '2_1_2': ([[0, 0], [1.25, 0.5], [2.0, 1.5]], [[0, 1], [1, 2]]),
    '3_1_2': ([[0, 0, 0], [1.25, 0.5, 0.25], [2.0, 1.5, 1]],
              [[0, 1], [1, 2]]),
}


def mesh_desc(key):
    """(dim, descriptor) of a mesh key."""
    if key == 'unit_tet':
        return 3, '3_4'
    p = key.split('_')
    if key.startswith(('2_1_2', '3_1_2', '3_2_4', '3_2_3')):
        return int(p[0]), '_'.join(p[1:3])
    return int(p[0]), '_'.join(p[:2])


def make_mesh(key, coors=None, conn=None, name='m'):
    from sfepy.discrete.fem import Mesh
    dim, desc = mesh_desc(key)
    c, co = MESHES[key]
    c = np.array(c, dtype=np.float64) if coors is None else coors
    co = np.array(co if conn is None else conn, dtype=np.int32)
    return Mesh.from_data(name, c, None, [co],
                          [np.zeros(len(co), dtype=np.int32)], [desc])


def make_domain(key, regions=True, **kw):
    from sfepy.discrete.fem import FEDomain
    d = FEDomain('d', make_mesh(key, **kw))
    if regions:
        d.create_region('Omega', 'all')
        if d.shape.dim > 1 or d.shape.dim == d.shape.tdim:
            d.create_region('Gamma', 'vertices of surface', 'facet')
    return d


def warm(keys=('2_3', '3_4_1')):
    """Load everything needed by the cases before the workers are forked."""
    from symx import driver
    from sfepy.terms import term_table
    for key in keys:
        for rn in ('Omega', 'Gamma'):
            ctx = driver.Ctx('conc')
            s = TermSetup(ctx, term_table['dw_dot'], 0, 0, key, rn)
            s.weak()
        ctx = driver.Ctx('conc')
        s = TermSetup(ctx, term_table['dw_laplace'], 0, 0, key, 'Omega')
        s.weak()


def clear_caches():
    """Forget module-level caches so that every path starts afresh."""
    try:
        from sfepy.base import base
    except ImportError:
        return


def rat(rng, lo, hi, den=16):
    """A dyadic rational in [lo, hi]."""
    return lo + (hi - lo) * rng.randint(0, den) / den


def rats(rng, shape, lo, hi, den=16):
    out = np.empty(shape, dtype=np.float64)
    for ii in np.ndindex(*out.shape):
        out[ii] = rat(rng, lo, hi, den)
    return out


def shape_list(cls, rname):
    """The list of the argument shapes of a term class in a region."""
    d = getattr(cls, 'arg_shapes_dict', None)
    sl = d['cell' if rname == 'Omega' else 'facet'] \
        if isinstance(d, dict) else cls.arg_shapes
    return sl if isinstance(sl, list) else [sl]


class TermSetup:
    """Builds a term of the term table the way equations do, with symbolic
    material values and symbolic variable data."""

    def __init__(self, ctx, cls, ish, iats, key, rname, order=2, approx=1,
                 mat_lo=0.5, mat_hi=2.0, mats='sym', state_scale=1.0,
                 nsym=None, basis=None, material_value=None,
                 mat_fun=None, concrete_params=False, users=None):
        from copy import copy
        from sfepy.discrete import Integral
        from sfepy.terms.terms import get_arg_kinds
        from sfepy.terms import Term
        self.ctx = ctx
        self.cls = cls
        self.rng = ctx.rng
        shapes = {}
        for s in shape_list(cls, rname)[:ish + 1]:
            shapes.update(s)
        ats = cls.arg_types
        ats = ats if isinstance(ats[0], tuple) else (ats,)
        self.ats = ats = ats[iats]
        modes = getattr(cls, 'modes', None)
        self.mode = modes[iats] if modes is not None else None
        self.kinds = get_arg_kinds(ats)
        with ctx.concrete():
            self.domain = make_domain(key)
        self.region = self.domain.regions[rname]
        self.dim = self.domain.shape.dim
        self.opts = dict(approx=approx, mat_lo=mat_lo, mat_hi=mat_hi,
                         mats=mats, scale=state_scale, nsym=nsym,
                         basis=basis, mat_fun=mat_fun,
                         cparams=concrete_params)
        self.material_value = material_value or {}
        self.states = []
        self.users = users or {}
        self._args(shapes)
        if cls.integration == 'custom':
            i3 = Integral('i0', order=order)
            c, w = i3.get_qp('3_8')
            integral = Integral('i', coors=c, weights=w, order='custom')
        elif cls.integration_order == 0:
            integral = Integral('i', order=0)
        else:
            integral = Integral('i', order=order)
        self.integral = integral
        name = '%s(%s)' % (cls.name, ', '.join(self.str_args))
        self.term = Term.new(name, integral, self.region, **self.args)
        self.term.setup()

    def _sc(self, sh):
        from sfepy.mechanics.tensors import dim2sym
        dim, sym = self.dim, dim2sym(self.dim)
        return {'D': dim, 'D2': dim**2, 'D3': dim**3, 'S': sym,
                'SD': sym * dim, 'N': 1}.get(sh, sh) \
            if sh in ('D', 'D2', 'D3', 'S', 'SD', 'N', 'str') else int(sh)

    def vardata(self, name, n, scale, sym=True, lo=None):
        ctx = self.ctx
        ns = self.opts['nsym']
        if ns is None or ns >= n:
            if sym:
                return ctx.real(name, n, lo=-scale, hi=scale)
        vals = rats(self.rng, n, -0.5 * scale, 0.5 * scale, den=64)
        if not sym:
            return ctx.const(vals)
        # symbolic entries at pseudo-random positions
        ks = sorted(self.rng.sample(range(n), ns))
        out = np.array(ctx.const(vals))
        for k in ks:
            out[k] = ctx.real('%s_%d' % (name, k), lo=-scale, hi=scale)
        return ctx_wrap(ctx, out)

    def _args(self, arg_shapes):
        from sfepy.discrete import FieldVariable, Material, Variables, \
            Materials
        from sfepy.discrete.fem import Field
        from sfepy.solvers.ts import TimeStepper
        ctx, o = self.ctx, self.opts
        args, str_args, materials, variables = {}, [], [], []
        omega = self.domain.regions['Omega']
        ats = self.ats
        for ii, kind in enumerate(self.kinds):
            if kind not in ('ts',):
                sh = arg_shapes.get(ats[ii])
                if ats[ii] not in arg_shapes:
                    sh = arg_shapes['%s/%s' % (ats[ii], self.mode)]
            if kind.endswith('variable'):
                shape = self._sc(sh[0] if isinstance(sh, tuple) else sh)
                with ctx.concrete():
                    field = Field.from_args(
                        'f%d' % ii, np.float64, shape, omega,
                        approx_order=o['approx'],
                        poly_space_basis=o['basis'] or getattr(
                            self.cls, 'poly_space_basis', 'lagrange'))
                if kind == 'virtual_variable':
                    if sh[1] is not None:
                        ist = ats.index(sh[1])
                    else:
                        ist = -1
                        var = FieldVariable('u-1', 'unknown', field)
                        var.set_constant(0.0)
                        variables.append(var)
                    var = FieldVariable('v', 'test', field,
                                        primary_var_name='u%d' % ist)
                    self.virtual = var
                elif kind == 'state_variable':
                    var = FieldVariable('u%d' % ii, 'unknown', field)
                    var.set_data(self.vardata('u%d' % ii, field.n_nod
                                              * field.n_components,
                                              o['scale']))
                    self.states.append(var)
                else:
                    var = FieldVariable('p%d' % ii, 'parameter', field,
                                        primary_var_name='(set-to-None)')
                    var.set_data(self.vardata('p%d' % ii, field.n_nod
                                              * field.n_components,
                                              o['scale'],
                                              sym=not o['cparams']))
                variables.append(var)
                str_args.append(var.name)
                args[var.name] = var
            elif kind.endswith('material'):
                if sh is None:
                    continue
                prefix = ''
                if isinstance(sh, str):
                    aux = sh.split(':')
                    if len(aux) == 2:
                        prefix, sh = aux
                values = self._mat(ii, ats[ii], prefix, sh)
                mat = Material('m%d' % ii, values=values)
                materials.append(mat)
                str_args.append('m%d.c%d' % (ii, ii))
                args[mat.name] = mat
            elif kind == 'ts':
                ts = TimeStepper(0.0, 1.0, 1.0, 5)
                str_args.append('ts')
                args['ts'] = ts
            else:
                str_args.append('user%d' % ii)
                args[str_args[-1]] = self.users.get(
                    ats[ii], sh if callable(sh) else None)
        self.args, self.str_args = args, str_args
        self.materials = Materials(materials)
        self.variables = Variables(variables)
        self.vars = {v.name: v for v in variables}

    def _mat(self, ii, at, prefix, sh):
        ctx, o = self.ctx, self.opts
        if isinstance(sh, str):
            shape = [self._sc(s.strip()) for s in sh.split(',')]
        else:
            shape = [int(sh)]
        if 'str' in shape:
            return {'.c%d' % ii: self.material_value.get(at, 1.0)}
        if o['mat_fun'] is not None:
            val = o['mat_fun'](ctx, at, tuple(shape), ii)
            if val is not None:
                if len(shape) == 1 and shape[0] == 1:
                    return {'%sc%d' % (prefix or '.', ii): val}
                return {'%sc%d' % (prefix, ii): val}
        if at in self.material_value:
            val = self.material_value[at]
            if len(shape) == 1 and shape[0] == 1:
                return {'.c%d' % ii: val}
            return {'%sc%d' % (prefix, ii): val}
        lo, hi = o['mat_lo'], o['mat_hi']
        if len(shape) > 1 or shape[0] > 1:
            if o['mats'] == 'sym':
                val = ctx.real('c%d' % ii, tuple(shape), lo=lo, hi=hi)
            else:
                val = ctx.const(rats(self.rng, tuple(shape), lo, hi))
            return {'%sc%d' % (prefix, ii): val}
        if o['mats'] == 'sym':
            val = ctx.real('c%d' % ii, lo=lo, hi=hi)
        else:
            val = float(rat(self.rng, lo, hi))
        return {'.c%d' % ii: val}

    # ---
    def invalidate(self):
        for v in self.vars.values():
            v.clear_evaluate_cache()

    def weak(self, diff_var=None, **kw):
        out = self.term.evaluate(mode='weak', diff_var=diff_var,
                                 ret_status=True, **kw)
        return out[0], out[1], out[2]

    def eval(self, mode='eval', **kw):
        out = self.term.evaluate(mode=mode, ret_status=True, **kw)
        return out[0], out[-1]

    def conn(self, var):
        """Element connectivity of DOFs in the local ordering of element
        contributions (component-major)."""
        dct = self.term.get_dof_conn_type(var.name)
        tr = self.term.arg_trace_regions[var.name]
        econn = var.field.get_econn(dct, self.region, tr)
        nc = var.n_components
        return np.concatenate([econn * nc + ic for ic in range(nc)], axis=1)


def ctx_wrap(ctx, a):
    if ctx.sym:
        from symx import symnp as N
        return N.wrap(a)
    return np.asarray(a, dtype=np.float64)


def asm_vec(conn, vals, n):
    """Assemble element vectors (nel, 1, nrow, 1)."""
    out = np.zeros(n, dtype=object)
    v = np.asarray(vals)
    for iel in range(conn.shape[0]):
        for k in range(conn.shape[1]):
            out[conn[iel, k]] = out[conn[iel, k]] + v[iel, 0, k, 0]
    return out


def asm_mat(rconn, cconn, vals, shape):
    out = np.zeros(shape, dtype=object)
    v = np.asarray(vals)
    for iel in range(rconn.shape[0]):
        for i in range(rconn.shape[1]):
            for j in range(cconn.shape[1]):
                out[rconn[iel, i], cconn[iel, j]] = \
                    out[rconn[iel, i], cconn[iel, j]] + v[iel, 0, i, j]
    return out


def floats(ctx, a):
    """The floats of an array that does not depend on symbolic values."""
    if not ctx.sym:
        return np.asarray(a, dtype=np.float64)
    from symx import expr as E
    from fractions import Fraction
    a = np.asarray(a)

    def one(v):
        if not isinstance(v, E.Node) or E.is_const(v):
            return float(E.to_float(v))
        # A difference with cancelling symbolic parts.
        env = {n.a: Fraction(3 * k + 1, 7) for k, n in
               enumerate(E.free_vars([v]))}
        return float(E.evaluate([v], env, exact=True)[0])
    return np.array([one(v) for v in a.ravel()],
                    dtype=np.float64).reshape(a.shape)
