"""Hyperelastic terms: exact tangents, agreement of the total and updated
Lagrangian formulations and of related material models."""
import numpy as np
import fe
from c_tangent import tangent, term_cases

PROPERTY = 'C02'
BOUNDS = ('one-element meshes of fixed dyadic coordinates, linear '
          'approximation, one quadrature point; displacement DOFs fixed at '
          'random values but one (quick) or two (thorough) that range over '
          '[-1/8, 1/8]; Ogden terms: all homogeneous diagonal deformations '
          'with stretches in [7/8, 9/8]')
OUTSIDE = ('terms based on JAX; the Ogden tangent off the diagonal '
           'deformations; more quadrature points')

YEOH = {0: np.array([[0.5, 0.25, 0.125, 1.0, 2.0, 3.0]]),
        1: np.array([[0.5, 2.0]])}


def h(ctx, name, ish, iats, key, rname, nsym=1, **kw):
    from sfepy.terms import term_table
    mv = {}
    if 'genyeoh' in name:
        mv = {'material': ctx.const(YEOH[ish])}
    s = fe.TermSetup(ctx, term_table[name], ish, iats, key, rname,
                     nsym=nsym, state_scale=0.125, order=1,
                     material_value=mv, **kw)
    tangent(ctx, s, name, nsym)


def h_ul(ctx, name, key, nsym=1):
    """TL and UL (on the moved mesh) give the same residual and matrix."""
    from sfepy.terms import term_table, Term
    from sfepy.discrete.fem.fields_base import set_mesh_coors
    s = fe.TermSetup(ctx, term_table['dw_tl_' + name], 0, 0, key, 'Omega',
                     nsym=nsym, state_scale=0.125, order=1, mats='num')
    ul = Term.new('dw_ul_%s(%s)' % (name, ', '.join(s.str_args)),
                  s.integral, s.region, **s.args)
    ul.setup()
    us = [v for v in s.states if v.n_components > 1]
    u = us[0]
    tl = s.weak()[0]
    mtl = {v.name: s.weak(diff_var=v.name)[0] for v in s.states}
    s.invalidate()
    fields = {v.field.name: v.field for v in s.vars.values()}
    for f in fields.values():
        f.save_mappings()
        f.clear_mappings()
    coors = s.domain.get_mesh_coors() + u().reshape((-1, s.dim))
    set_mesh_coors(s.domain, fields, coors, actual=True, clear_all=False)
    ru = ul.evaluate(mode='weak', ret_status=True)[0]
    mul = {v.name: ul.evaluate(mode='weak', diff_var=v.name,
                               ret_status=True)[0] for v in s.states}
    if name == 'volume':
        # The UL residual is relative to the undeformed volume.
        ref = Term.new('dw_integrate(v)', s.integral, s.region,
                       v=s.virtual)
        ref.setup()
        for f in fields.values():
            f.clear_mappings()
        set_mesh_coors(s.domain, fields, s.domain.mesh.coors, actual=True,
                       clear_all=False)
        tl = tl - ref.evaluate(mode='weak', ret_status=True)[0]
    ctx.eq(ru, tl, 'TL and UL residuals of %s' % name)
    for v in s.states:
        mu = mul[v.name]
        ctx.eq(mu, mtl[v.name], 'TL and UL d %s / d %s' % (name, v.name))


def h_ogden(ctx, exp):
    """Ogden: stress formula, alpha = 2 is the neo-Hookean material."""
    from sfepy.terms import term_table, Term
    mu = 0.75
    s = fe.TermSetup(ctx, term_table['dw_tl_he_ogden'], 0, 0, 'unit_tet',
                     'Omega', nsym=0, order=1, material_value={
                         'material': np.array([[mu, exp]])})
    st = ctx.real('e', 3, lo=-0.125, hi=0.125)
    u = s.states[0]
    X = u.field.get_coor()

    def disp(e):
        x = np.zeros(X.shape, dtype=object if ctx.sym else float)
        for k in range(3):
            x[:, k] = X[:, k] * e[k]
        return fe.ctx_wrap(ctx, x.reshape(-1))

    def f(e):
        u.set_data(disp(e))
        s.invalidate()
        return s.weak()[0].reshape(-1)
    y, dy = ctx.derivative(f, st)
    f(st)
    K = s.weak(diff_var=u.name)[0][0, 0]
    # element DOFs are ordered component by component
    for k in range(3):
        ek = [0, 0, 0]
        ek[k] = 1
        d = np.asarray(disp(ek)).reshape((-1, 3)).T.reshape(-1)
        ctx.eq(np.asarray(K).dot(d), np.asarray(dy)[:, k],
               'tangent along stretch %d' % k, rtol=1e-5)
    # S_k = mu / lam_k^2 J^{-a/3} (lam_k^a - sum_j lam_j^a / 3)
    lam = [1 + st[k] for k in range(3)]
    J = lam[0] * lam[1] * lam[2]
    pa = [ll ** exp for ll in lam]
    f0 = J ** (-exp / 3.0)
    vol = 1.0 / 6.0
    got = np.asarray(y).reshape((3, 4))
    for k in range(3):
        Sk = mu * f0 * (pa[k] - (pa[0] + pa[1] + pa[2]) / 3) / lam[k] ** 2
        # grad N_(k+1) = e_k: residual = vol * F_kk S_k
        ctx.eq(got[k, k + 1], vol * lam[k] * Sk, 'stress %d' % k)
    if exp == 2:
        neo = Term.new('dw_tl_he_neohook(mm.c, %s)'
                       % ', '.join(s.str_args[1:]), s.integral, s.region,
                       mm=_mat(mu), **s.args)
        neo.setup()
        s.invalidate()
        ctx.eq(neo.evaluate(mode='weak', ret_status=True)[0].reshape(-1), y,
               'neo-Hookean residual')


def _mat(mu):
    from sfepy.discrete import Material
    return Material('mm', values={'c': np.array([[mu]])})


def warm():
    fe.warm()


def hyp(name, cls):
    return name.startswith('dw_tl_') and 'jax' not in cls.__module__ \
        and name != 'dw_tl_he_ogden'


UL = ('he_neohook', 'he_mooney_rivlin', 'bulk_penalty', 'bulk_pressure',
      'volume')


def cases(tier):
    from symx.runner import Case
    out = []
    for n, p in term_cases(hyp, ('2_3_1', '3_4_1'), mats='num'):
        out.append(Case(n, 'h', p))
        if p['key'] == '2_3_1':
            out.append(Case(n + '.n2', 'h', dict(p, nsym=2),
                            thorough_only=True))
    for name in UL:
        for key in ('2_3_1', '3_4_1'):
            out.append(Case('ul.%s.%s' % (name, key), 'h_ul',
                            dict(name=name, key=key)))
    for e in (2, 4):
        out.append(Case('ogden.%d' % e, 'h_ogden', dict(exp=e)))
    return out
