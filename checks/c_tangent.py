"""Tangent matrices of all weak-form terms are the exact derivatives of the
corresponding residuals."""
import numpy as np
import fe

PROPERTY = 'C01'
BOUNDS = ('one- and two-element meshes of fixed dyadic coordinates '
          '(bars, triangles, quadrilaterals, tetrahedra, hexahedra), '
          'approximation order 1 (2 in the thorough tier), quadrature order '
          '2 (fixed points), all DOFs of all variables in [-1, 1] and all '
          'material entries in [1/2, 2] symbolic')
OUTSIDE = ('contact, DG and shell terms, terms based on JAX or IPC Toolkit, '
           'hyperelastic terms (property C02), complex-valued variables')

SKIP = ('dw_contact', 'dw_dg_', 'dw_ns_dot_grad_s', 'de_mass',
        'dw_shell10x', 'dw_zero', 'dw_contact_sphere')

# Special material arguments.
MATV = {'dw_s_dot_grad_i_s': {'material': np.array([[1.0]])}}
CONC = ('de_m_sg_elastic',)

POLY = (1.0, 0.25, 0.125)


def fun(p):
    return POLY[0] + POLY[1] * p + POLY[2] * p * p * p


def dfun(p):
    return POLY[1] + 3 * POLY[2] * p * p


def tangent(ctx, s, name, nsym=None, dlabel=''):
    svars = s.term.get_state_variables(unknown_only=True)
    if svars:
        # A different history: results must depend on the current state only.
        xs = [(v, np.array(v())) for v in svars]
        for v, x in xs:
            v.set_data(ctx.const(fe.rats(s.rng, len(x), -0.0625, 0.0625)))
        s.invalidate()
        s.weak()
        for v in svars:
            s.weak(diff_var=v.name)
        for v, x in xs:
            v.set_data(fe.ctx_wrap(ctx, x))
        s.invalidate()
    vals, iels, status = s.weak()
    rconn = s.conn(s.virtual)
    nr = s.virtual.field.n_nod * s.virtual.n_components
    ctx.true(status == 0, 'status of %s' % name)
    for var in s.term.get_state_variables(unknown_only=True):
        x0 = np.array(var())

        def f(x):
            var.set_data(x)
            s.invalidate()
            vals, _, _ = s.weak()
            return fe.asm_vec(rconn, vals, nr)
        y, dy = ctx.derivative(f, x0)
        f(x0)
        mv, _, st = s.weak(diff_var=var.name)
        ctx.true(st == 0, 'status of d%s' % name)
        m = fe.asm_mat(rconn, s.conn(var), mv, (nr, len(x0)))
        dy = np.asarray(dy)
        if ctx.sym and nsym:
            ks = [k for k, v in enumerate(x0) if _isvar(v)]
            dy, m = dy[:, ks], m[:, ks]
        ctx.eq(m, dy, 'd %s / d %s' % (name, var.name), rtol=1e-5)


def _isvar(v):
    from symx import expr as E
    return isinstance(v, E.Sym) and v.op == 'v'


def h(ctx, name, ish, iats, key, rname, **kw):
    from sfepy.terms import term_table
    cls = term_table[name]
    s = fe.TermSetup(ctx, cls, ish, iats, key, rname, users=dict(
        fun=fun, dfun=dfun), material_value=MATV.get(name),
        mats='num' if name in CONC else 'sym', **kw)
    tangent(ctx, s, name, kw.get('nsym'))


def ok_shapes(cls, ia, ish, rn):
    """Are the shapes of all the arguments known?"""
    ats = cls.arg_types if isinstance(cls.arg_types[0], tuple) \
        else (cls.arg_types,)
    modes = getattr(cls, 'modes', None)
    keys = set()
    for s in fe.shape_list(cls, rn)[:ish + 1]:
        keys.update(s)
    return len(keys) > 0 and all(
        a in keys or (modes is not None and '%s/%s' % (a, modes[ia]) in keys)
        or a.startswith('ts') for a in ats[ia])


def term_cases(names, keys, skip=lambda n: False, **kw):
    from symx.runner import Case
    import sfepy.discrete
    from sfepy.terms import term_table
    out = []
    for name, cls in sorted(term_table.items()):
        if not names(name, cls):
            continue
        ats = cls.arg_types if isinstance(cls.arg_types[0], tuple) \
            else (cls.arg_types,)
        for ia, at in enumerate(ats):
            if not any('virtual' in a for a in at):
                continue
            for key in keys:
                    g = '_'.join(key.split('_')[:2])
                    if key.startswith(('2_1_2', '3_1_2', '3_2_4')):
                        g = '_'.join(key.split('_')[:3])
                    if g not in cls.geometries:
                        continue
                    for rn, kinds in (('Omega', ('cell', 'point', 'custom')),
                                      ('Gamma', ('facet', 'facet_extra'))):
                        ii = cls.integration
                        ii = ii if isinstance(ii, tuple) else (ii,)
                        if not any(k in ii for k in kinds):
                            continue
                        if rn == 'Gamma' and g in ('1_2',):
                            continue
                        for ish in range(len(fe.shape_list(cls, rn))):
                            if not ok_shapes(cls, ia, ish, rn):
                                continue
                            out.append(('%s.%d.%d.%s.%s' % (
                                name, ia, ish, key, rn),
                                dict(name=name, ish=ish, iats=ia,
                                     key=key, rname=rn, **kw)))
    return out


def std(name, cls):
    return (name.startswith(('dw_', 'de_')) and not name.startswith(SKIP)
            and 'jax' not in cls.__module__
            and not name.startswith(('dw_tl_', 'dw_ul_')))


def warm():
    fe.warm()


def cases(tier):
    from symx.runner import Case
    out = []
    for n, p in term_cases(std, ('2_3', '3_4_1', '2_1_2', '3_1_2')):
        out.append(Case(n, 'h', p, thorough_only=p['name'] in CONC
                        and p['key'] == '3_4_1'))
    if tier == 'thorough':
        for n, p in term_cases(std, ('1_2', '2_4', '3_4', '3_8_1')):
            out.append(Case(n, 'h', p))
        for n, p in term_cases(std, ('2_3_1', '2_4_1'), approx=2):
            out.append(Case(n + '.a2', 'h', p))
    return out
