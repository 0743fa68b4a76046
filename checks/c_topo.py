"""
C09: mesh entities and connectivities agree with their definitions for every
small mesh (bounded model checking of mesh.c).
"""
import os
from symx import cbmc, env
from symx.runner import Case

PROPERTY = 'C09'
BOUNDS = ('entities: two cells (triangles, quadrilaterals, a mix, '
          'tetrahedra; three triangles, wedges and hexahedra in the thorough '
          'tier), the first with fixed vertices, the second with any vertices '
          'out of 5 to 12, sharing at least one vertex; incidence tables: up '
          'to 5 rows of up to 4 arbitrary distinct indices; subsets of up to '
          '3 entities; sorting: all integers up to 10^6; loops unwound up to '
          'the sizes, checked by unwinding assertions')
OUTSIDE = ('meshes of more cells; the order in which the functions are called '
           'to set up all connectivities (run on concrete meshes by the other '
           'checks); one-dimensional cells; failed allocations')
ASSUMPTIONS = ['blocks have a constant size not smaller than requested, the '
               'contents past the requested size are arbitrary',
               'comparing a pointer with null by > is the same as by !=']
KEYS = {'1_2': 0, '2_3': 1, '2_4': 2, '3_4': 3, '3_8': 4, '3_6': 5}
NAMES = ['Bar', 'Triangle', 'Quadrilateral', 'Tetrahedron', 'Hexahedron',
         'Wedge']


def warm():
    local_entities()


_loc = {}


def local_entities():
    """Reference element edges and faces, as passed to the real code."""
    if not _loc:
        from sfepy.discrete.fem.geometry_element import GeometryElement
        for key in KEYS:
            gel = GeometryElement(key)
            _loc[key] = (gel.n_vertex,
                         [list(map(int, e)) for e in gel.edges]
                         if gel.n_edge > 0 else [],
                         [list(map(int, e)) for e in gel.faces]
                         if gel.n_face > 0 else [])
    return _loc


def carr(name, vals):
    return 'static uint32 %s[] = {%s};' % (name, ', '.join(
        map(str, vals)) if len(vals) else '0')



def run(ctx, defs, inputs, extra=(), unwind=17, cap=None):
    if cap:
        defs = list(defs) + ['CAP %d' % cap]
    ext = os.path.join(env.REPO, 'sfepy', 'discrete', 'common', 'extmods')
    cbmc.check(ctx, 'cbmc/mesh.c', inputs,
               '\n'.join(['#define ' + w for w in defs] + list(extra)),
               incs=[ext], unwind=unwind,
               patch=[(os.path.join(ext, 'mesh.c'),
                       [(r'->indices > 0\b', '->indices != 0')])])


def entities(ctx, cells, nv, dim, fixed=0):
    loc = local_entities()
    tdim = int(cells[0][0])
    nvs = [loc[c][0] for c in cells]
    n = sum(len(loc[c][dim]) for c in cells)
    defs = ['TD %d' % tdim, 'NC %d' % len(cells), 'NV %d' % nv,
            'NT(d) %d' % n, 'DO_ENTITIES %d' % dim,
            'CAP %d' % (12 * (2 if dim == 1 else 4) + 1)]
    arr, setup = [], []
    for key in sorted(set(cells)):
        for kind, ents in (('edges', loc[key][1]), ('faces', loc[key][2])):
            if not ents or (kind == 'faces' and tdim < 3):
                continue
            nm = 'l%s_%s' % (kind, key)
            off = [0]
            for e in ents:
                off.append(off[-1] + len(e))
            arr.append('static unsigned int %s_i[] = {%s};'
                       % (nm, ', '.join(str(v) for e in ents for v in e)))
            arr.append('static unsigned int %s_o[] = {%s};'
                       % (nm, ', '.join(map(str, off))))
            setup.append('set_loc(mesh->entities->%s[%s], %d, %s_i, %s_o);'
                         % (kind, NAMES[KEYS[key]], len(ents), nm, nm))
    defs.append('SETUP_LOCAL() do { %s } while (0)' % ' '.join(setup))
    arr.append('static unsigned int conf_ct[] = {%s};' % ', '.join(
        str(KEYS[c]) for c in cells))
    arr.append('static unsigned int conf_nv[] = {%s};' % ', '.join(
        map(str, nvs)))
    inputs = []
    k = 0
    for ic, m in enumerate(nvs):
        for i in range(m):
            lo, hi = (k, k) if k < fixed else (0, nv - 1)
            inputs.append(('v%d_%d' % (ic, i), lo, hi))
            k += 1
    run(ctx, defs, inputs, arr, unwind=n + 1)


def sort(ctx, hi=1000000):
    run(ctx, ['TD 2', 'DO_SORT 1'], [('a%d' % i, 0, hi) for i in range(8)])


def transpose(ctx, d1, d2, n1, n2, m):
    run(ctx, ['TD %d' % max(d2, 2), 'TABLES 1', 'DO_TRANSPOSE 1',
              'TR1 %d' % d1, 'TR2 %d' % d2, 'TN1 %d' % n1, 'TN2 %d' % n2,
              'TM %d' % m],
        [('t%d' % i, 0, n1 - 1) for i in range(n2 * m)],
        cap=max(n2 * m, n1 + 1), unwind=max(n2 * m, n1) + 1)


def intersect(ctx, d, n, m, nver=0, v=(0, 0)):
    """d = d1, d2, d3; n = numbers of entities; m = row sizes."""
    d1, d2, d3 = d
    n1, n2, n3 = n
    inputs = [('a%d' % i, 0, n3 - 1) for i in range(n1 * m[0])]
    if d3 != d2:
        inputs += [('b%d' % i, 0, n2 - 1) for i in range(n3 * m[1])]
    if d1 > d2 and d3 != 0:
        inputs += [('c%d' % i, 0, nver - 1) for i in range(n1 * v[0])]
    if d1 > d2:
        inputs += [('d%d' % i, 0, nver - 1) for i in range(n2 * v[1])]
    run(ctx, ['TD 3', 'TABLES 1', 'DO_INTERSECT 1', 'P1 %d' % d1,
              'P2 %d' % d2, 'P3 %d' % d3, 'PN1 %d' % n1, 'PN2 %d' % n2,
              'PN3 %d' % n3, 'PM1 %d' % m[0], 'PM3 %d' % m[1],
              'PV1 %d' % v[0], 'PV2 %d' % v[1], 'PNV %d' % nver], inputs,
        cap=max(n1 * m[0], n3 * m[1], n1 * n2, n1 * v[0], n2 * v[1],
                max(n) + 1), unwind=max(n1 * n2, n1, n2, n3) + 1)


def subset(ctx, dent, dim, n1, m1, n2, m2, ns, local=False):
    inputs = [('a%d' % i, 0, n2 - 1) for i in range(n1 * m1)]
    if dim > dent:
        inputs += [('b%d' % i, 0, n1 - 1) for i in range(n2 * m2)]
    inputs += [('s%d' % i, 0, n1 - 1) for i in range(ns)]
    run(ctx, ['TD 3', 'TABLES 1', 'DO_SUBSET 1', 'SDENT %d' % dent,
              'SDIM %d' % dim, 'SN1 %d' % n1, 'SM1 %d' % m1, 'SN2 %d' % n2,
              'SM2 %d' % m2, 'NS %d' % ns, 'MAXI %d' % max(n1, n2)]
        + (['DO_LOCAL 1'] if local else []), inputs,
        cap=max(n1 * m1, n2 * m2, max(n1, n2) + 1),
        unwind=max(n1, n2) + 2)


def cases(tier):
    out = []

    def add(name, fun, th=False, **kw):
        out.append(Case(name, fun, kw, thorough_only=th, budget=110
                        if tier == 'quick' else 800))
    add('sort', 'sort')
    add('transpose 0 2', 'transpose', d1=0, d2=2, n1=4, n2=3, m=3)
    add('transpose 1 3', 'transpose', d1=1, d2=3, n1=5, n2=2, m=4)
    add('transpose 0 1', 'transpose', d1=0, d2=1, n1=4, n2=4, m=2)
    add('intersect cells', 'intersect', d=(2, 2, 0), n=(2, 2, 3), m=(2, 2))
    add('intersect vertices', 'intersect', d=(0, 0, 2), n=(3, 3, 2), m=(1, 2))
    add('intersect face edge', 'intersect', d=(2, 1, 0), n=(2, 2, 3),
        m=(2, 1), nver=3, v=(2, 2))
    add('intersect cell edge', 'intersect', d=(3, 1, 0), n=(1, 3, 4),
        m=(3, 2), nver=4, v=(3, 2))
    add('subset 0 2', 'subset', dent=0, dim=2, n1=5, m1=2, n2=4, m2=3, ns=3)
    add('subset 1 3', 'subset', dent=1, dim=3, n1=4, m1=1, n2=3, m2=2, ns=2)
    add('local 0 2', 'subset', dent=0, dim=2, n1=4, m1=2, n2=3, m2=3, ns=2,
        local=True)
    add('local 1 3', 'subset', dent=1, dim=3, n1=3, m1=1, n2=2, m2=2, ns=3,
        local=True)
    add('subset 2 1', 'subset', dent=2, dim=1, n1=4, m1=3, n2=5, m2=0, ns=3)
    add('tri2 edges', 'entities', cells=['2_3'] * 2, nv=5, dim=1, fixed=3)
    add('quad2 edges', 'entities', cells=['2_4'] * 2, nv=7, dim=1, fixed=4)
    add('tri quad edges', 'entities', cells=['2_3', '2_4'], nv=6, dim=1,
        fixed=3)
    add('quad tri edges', 'entities', cells=['2_4', '2_3'], nv=6, dim=1,
        fixed=4)
    add('tet2 faces', 'entities', cells=['3_4'] * 2, nv=7, dim=2, fixed=4)
    add('tet2 edges', 'entities', cells=['3_4'] * 2, nv=5, dim=1, fixed=4)
    add('tri2 free', 'entities', th=True, cells=['2_3'] * 2, nv=5, dim=1)
    add('tri3 edges', 'entities', th=True, cells=['2_3'] * 3, nv=6, dim=1,
        fixed=3)
    add('wedge2 faces', 'entities', th=True, cells=['3_6'] * 2, nv=9, dim=2,
        fixed=6)
    add('hex2 faces', 'entities', th=True, cells=['3_8'] * 2, nv=12, dim=2,
        fixed=8)
    return out
