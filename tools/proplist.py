NUM = ('Bounded: holds for every value of the symbolic inputs of the cases '
       'listed in the evidence (see bounds there); doubles are modelled as '
       'exact reals; numpy, the clang IR and Cython front ends and the '
       'translators of symx are trusted (every path is also replayed '
       'concretely on the real build).')

prop('C01', 'c_tangent', 'Weak-form term tangents are exact derivatives',
     'For every term of a weak formulation, the matrix contribution with '
     'respect to an unknown is exactly the derivative of the residual '
     'contribution with respect to that unknown. It holds for every state, '
     'every material value, including non-symmetric or mixed-sign tensors, '
     'and does not depend on what was evaluated before.',
     ['inputs', 'histories'],
     'all states and material values within the bounds, all terms of the '
     'term table with weak mode, several geometries',
     'A wrong entry of a tangent only slows Newton down, or shows for '
     'special tensors; tests only check that terms can be called or that '
     'a few examples converge.',
     ['sfepy/terms/*.py', 'sfepy/terms/extmods/*.c',
      'sfepy/discrete/common/extmods/fmfield.c'],
     [('weak term evaluation', 'sfepy/terms/terms.py:Term.evaluate'),
      ('element kernels', 'sfepy/terms/extmods/*.c')], NUM)

prop('C02', 'c_hyper', 'Hyperelastic terms: consistent stresses and tangents',
     'For every hyperelastic material the tangent is exactly the derivative '
     'of the residual at every deformed state, independently of previous '
     'evaluations. The total and updated Lagrangian formulations of the same '
     'material give the same residual and tangent, and a material that '
     'reduces to another one for special parameters agrees with it.',
     ['inputs', 'histories'],
     'all deformations within the bounds (perturbations of fixed large '
     'deformations, all diagonal deformations for Ogden)',
     'At the undeformed state many wrong tangent moduli agree with the '
     'right ones, and Newton hides small errors.',
     ['sfepy/terms/terms_hyperelastic_base.py',
      'sfepy/terms/terms_hyperelastic_tl.py',
      'sfepy/terms/terms_hyperelastic_ul.py', 'sfepy/terms/terms_fibres.py',
      'sfepy/terms/extmods/terms_hyperelastic.c',
      'sfepy/discrete/common/extmods/geommech.c'],
     [('TL/UL stress and tangent moduli',
       'sfepy/terms/extmods/terms_hyperelastic.c'),
      ('family data', 'sfepy/terms/terms_hyperelastic_base.py')], NUM)


prop('C03', 'c_weak', 'Terms evaluate the integrals of their definitions',
     'The value of a term is the integral given in its documentation, for '
     'every state, parameter, test function and material value, in the weak '
     'form and in the evaluation modes, on cells and on boundary facets, for '
     'all supported shapes of the material. Element, average and '
     'quadrature-point evaluations are consistent with the total, and '
     'evaluating does not change later results.',
     ['inputs', 'histories'],
     'all values of DOFs and materials; more than sixty term definitions '
     'on two- and three-dimensional simplices',
     'Tests compare a few terms for special data (constant fields, '
     'symmetric or identity materials), where transposed tensors, missing '
     'factors or wrong element Jacobians do not show.',
     ['sfepy/terms/*.py', 'sfepy/terms/extmods/*.c',
      'sfepy/discrete/common/mappings.py'],
     [('term evaluation', 'sfepy/terms/terms.py:Term.evaluate'),
      ('element kernels', 'sfepy/terms/extmods/*.c'),
      ('multilinear terms', 'sfepy/terms/terms_multilinear.py')], NUM)

prop('C05', 'c_system', 'Constrained systems are projections of element sums',
     'Under essential and periodic conditions, the full state satisfies all '
     'active conditions, the reduced residual collects every element '
     'contribution exactly once, and the assembled matrix is the derivative '
     'of the reduced residual. It holds for coupled fields, for conditions '
     'active only at some times, with and without elimination of fixed '
     'degrees of freedom, and for evaluation term by term.',
     ['inputs', 'configurations', 'histories'],
     'all states and prescribed values, a set of meshes, fields and '
     'combinations of conditions, sequences of time steps',
     'Wrong numbering of degrees of freedom shows only for particular '
     'combinations of conditions and fields; tests solve a few problems and '
     'compare with loose tolerances or do not compare at all.',
     ['sfepy/discrete/common/dof_info.py', 'sfepy/discrete/variables.py',
      'sfepy/discrete/equations.py', 'sfepy/discrete/evaluate.py',
      'sfepy/discrete/common/extmods/assemble.pyx',
      'sfepy/discrete/conditions.py', 'sfepy/discrete/fem/periodic.py'],
     [('mapping of equations',
       'sfepy/discrete/common/dof_info.py:EquationMap.map_equations'),
      ('assembling', 'sfepy/discrete/common/extmods/assemble.pyx'),
      ('reduced and full states',
       'sfepy/discrete/variables.py:Variables.make_full_vec')], NUM)

prop('C15', 'c_lcbc', 'Linear combination conditions hold exactly',
     'For every reduced state, the full state satisfies the linear '
     'combination conditions of the problem: rigid regions, rigid links and '
     'average forces, screw motion, no penetration and prescribed '
     'directions, common values, general nodal and multi-node combinations, '
     'and (shifted) ties. No other freedom is removed, and the residual and '
     'matrix are the corresponding Galerkin projections, also together with '
     'essential and periodic conditions.',
     ['inputs', 'configurations', 'histories'],
     'all reduced states, prescribed values and shifts, a set of meshes and '
     'combinations of conditions',
     'The constraints are linear maps assembled from index arithmetic; a '
     'test with one field on one mesh cannot see wrong offsets or signs for '
     'other combinations.',
     ['sfepy/discrete/fem/lcbc_operators.py', 'sfepy/discrete/variables.py',
      'sfepy/discrete/fem/utils.py', 'sfepy/discrete/evaluate.py'],
     [('operators', 'sfepy/discrete/fem/lcbc_operators.py'),
      ('nodal normals', 'sfepy/discrete/fem/utils.py:compute_nodal_normals')],
     NUM)

prop('C06', 'c_basis', 'Finite element bases are complete and consistent',
     'In every point of a reference element the basis functions sum to one '
     '(where the family has this property), their first and second '
     'derivatives are exact, and they reproduce all polynomials up to the '
     'order. On every face, edge and vertex exactly the functions that '
     'belong to it are nonzero, and they form the basis of the lower '
     'dimensional element. Evaluation does not depend on how points are '
     'grouped, nor on previous failed evaluations, and points outside of '
     'the element are reported.',
     ['inputs', 'histories'],
     'all points of the reference elements, all supported element types, '
     'families and several orders',
     'Tests compare derivatives with finite differences in a few quadrature '
     'points; wrong values on boundaries, in bubbles, or of hard-coded '
     'polynomials of single functions stay invisible.',
     ['sfepy/discrete/fem/poly_spaces.py',
      'sfepy/discrete/fem/extmods/lagrange.c',
      'sfepy/discrete/fem/extmods/bases.pyx',
      'sfepy/discrete/fem/extmods/lobatto.c',
      'sfepy/discrete/fem/_serendipity.py'],
     [('basis evaluation', 'sfepy/discrete/common/poly_spaces.py'),
      ('Lagrange kernels', 'sfepy/discrete/fem/extmods/lagrange.c')], NUM)

prop('C07', 'c_quad', 'Quadratures are exact up to their order',
     'A quadrature of a given order integrates all polynomials up to this '
     'order exactly on the reference element, and all its points lie in the '
     'element. Custom points and weights given in other bounds are '
     'transformed exactly, including symmetric one-dimensional rules.',
     ['inputs', 'configurations'],
     'all polynomials up to the order, all tabulated, product and generated '
     'rules up to the stated orders',
     'Tests integrate a single separable polynomial per order, which does '
     'not exercise the other moments.',
     ['sfepy/discrete/quadratures.py', 'sfepy/discrete/integrals.py',
      'sfepy/discrete/simplex_cubature.py'],
     [('tables', 'sfepy/discrete/quadratures.py'),
      ('Grundmann-Moeller rules', 'sfepy/discrete/simplex_cubature.py')], NUM)

prop('C08', 'c_mapping', 'Reference mappings are exact and correctly oriented',
     'Jacobians, cell volumes, facet areas, outward unit normals, basis '
     'gradients and physical quadrature points are those of the exact '
     'mapping of the current coordinates, at any scale of the mesh, on cells '
     'and on both sides of facets, in the same points as the basis; lower '
     'dimensional cells keep their lengths and areas in any orientation. '
     'Cells with a non-positive Jacobian are always, and only these are, '
     'reported. Cached mappings are never used for other coordinates, '
     'regions or quadratures.',
     ['inputs', 'histories', 'configurations'],
     'vertex coordinates around reference configurations or up to '
     'degeneration, all cell types, facets inner and outer, histories of '
     'moving meshes and several quadratures',
     'Tests use block meshes with parallelogram facets of unit size, on '
     'which misplaced points, wrong scales or stale caches are invisible.',
     ['sfepy/discrete/fem/mappings.py', 'sfepy/discrete/common/mappings.py',
      'sfepy/discrete/fem/fields_base.py', 'sfepy/discrete/common/fields.py'],
     [('mapping evaluation',
       'sfepy/discrete/fem/mappings.py:eval_mapping_data_in_qp'),
      ('facet mappings', 'sfepy/discrete/fem/fields_base.py:create_mapping'),
      ('cache', 'sfepy/discrete/common/fields.py:get_mapping')], NUM)

prop('C12', 'c_tstep', 'Time stepping visits its times, adaptive steps obey rules',
     'Fixed time stepping visits equally spaced times from the initial '
     'exactly to the final time, variable time stepping the sums of the steps '
     'set, from any restart point or saved state; every solution starts from '
     'the last accepted state. The adaptive solver reduces, repeats and '
     'increases steps exactly by its documented rules for any outcomes of the '
     'nonlinear solver. The step controllers accept a step if and only if its '
     'error estimate is at most one and propose step sizes by the documented '
     'formulas within the given factors, also for systems at rest.',
     ['inputs', 'histories', 'configurations'],
     'times, step sizes, coefficients, error values, and sequences of '
     'nonlinear solver outcomes',
     'The outcomes of the solver form exponentially many histories; tests '
     'run a few problems whose steps succeed.',
     ['sfepy/solvers/ts.py', 'sfepy/solvers/ts_controllers.py',
      'sfepy/solvers/ts_solvers.py'],
     [('time steppers', 'sfepy/solvers/ts.py'),
      ('adaptive rule', 'sfepy/solvers/ts_solvers.py:adapt_time_step'),
      ('controllers', 'sfepy/solvers/ts_controllers.py')], NUM)

prop('C13', 'c_elasto', 'Elastodynamics steps satisfy the equation of motion',
     'One step of each elastodynamics method (Newmark, generalized alpha, '
     'Bathe, central difference, velocity Verlet) solves the equation of '
     'motion with the loads of the right time, and the new displacements, '
     'velocities and accelerations satisfy the update formulas of the method '
     'for any state, coefficients and step size. This stays true with '
     'constant matrices kept between steps, additional variables, and any '
     'sequence of rejected steps and step size changes; rejected steps are '
     'redone from the last accepted state. The final state is returned.',
     ['inputs', 'histories', 'configurations'],
     'states, loads, system matrices, method parameters, step sizes and '
     'controller decisions',
     'Tests compare time histories of one linear problem within up to 10 % '
     'tolerances; stale matrices or shifted loads hide below them.',
     ['sfepy/solvers/ts_solvers.py'],
     [('integrators', 'sfepy/solvers/ts_solvers.py:step, create_nlst'),
      ('matrix caches', 'sfepy/solvers/ts_solvers.py:_cache, get_matrices')],
     NUM)

prop('C14', 'c_newton', 'Nonlinear solvers iterate and report truthfully',
     'For any residuals and Jacobians, each iterate of the Newton solver is '
     'the previous one minus the (line search scaled) solution of the linear '
     'system of the current residual and Jacobian; steps are accepted, '
     'reduced and failed evaluations repeated by the documented line search '
     'rules. Success is reported if and only if the stop conditions on '
     'absolute and relative residuals hold for the returned state, with the '
     'true iteration count, error and condition. The semi-smooth solver '
     'switches modes, masks and combines its residuals and Jacobians by its '
     'complementarity functions.',
     ['inputs', 'histories', 'configurations'],
     'residual values at all visited points, failures of evaluations, '
     'linear solver results, tolerances and line search options',
     'Solver paths depend on residual histories; tests follow convergent '
     'ones only.',
     ['sfepy/solvers/nls.py', 'sfepy/solvers/semismooth_newton.py'],
     [('Newton', 'sfepy/solvers/nls.py:Newton'),
      ('stop condition', 'sfepy/solvers/nls.py:conv_test'),
      ('semi-smooth', 'sfepy/solvers/semismooth_newton.py')], NUM)

prop('C10', 'c_conform', 'Fields are continuous across cell boundaries',
     'For any two cells sharing a facet, any relative orientation of the '
     'cells and any global vertex numbers, the degrees of freedom of the '
     'facet are shared by both cells, and every function of a continuous '
     'field takes the same values on the facet from both sides, for all '
     'supported approximation orders and basis families. Nodes of '
     'interpolatory families lie in the same physical points.',
     ['inputs', 'configurations'],
     'pairs of cells in all mutual rotations, all vertex orders of the '
     'facet, all points of the facet and all DOF values',
     'The meshes used by tests contain only a few relative orientations; a '
     'wrong facet permutation for others breaks continuity silently.',
     ['sfepy/discrete/fem/facets.py', 'sfepy/discrete/fem/fields_nodal.py',
      'sfepy/discrete/fem/fields_hierarchic.py',
      'sfepy/discrete/fem/fields_base.py',
      'sfepy/discrete/common/extmods/mesh.c'],
     [('facet DOF permutations',
       'sfepy/discrete/fem/facets.py:get_facet_dof_permutations'),
      ('facet orientations', 'sfepy/discrete/common/extmods/mesh.c'),
      ('hierarchic orientation', 'sfepy/discrete/fem/fields_hierarchic.py')],
     NUM)

prop('C19', 'c_mech', 'Constitutive and tensor conversions are consistent',
     'Any two elastic constants determine the others by the relations of '
     'isotropic elasticity, for all admissible values; stiffness tensors '
     'give the stresses of the named material (strain, plane stress, mixed, '
     'orthotropic), and conversions back return the constants. Plane stress '
     'tensors, also piezoelectric, eliminate exactly the vanishing '
     'components. Traces, deviators, strains, equivalent stresses, tensor '
     'storages, rotations, stress measures and shell frames agree with their '
     'definitions in every storage and dimension.',
     ['inputs', 'configurations'],
     'material constants in the admissible range, all pairs of constants, '
     'tensor components and rotations',
     'Tests check round trips for a few numbers; wrong roots, signs or '
     'component orders appear only for other pairs, planes or signs.',
     ['sfepy/mechanics/matcoefs.py', 'sfepy/mechanics/elastic_constants.py',
      'sfepy/mechanics/tensors.py', 'sfepy/mechanics/shell10x.py'],
     [('elastic constants', 'sfepy/mechanics/elastic_constants.py:relations'),
      ('plane stress',
       'sfepy/mechanics/matcoefs.py:TransformToPlane.tensor_plane_stress'),
      ('tensors', 'sfepy/mechanics/tensors.py:transform_data')], NUM)

prop('C09', 'c_topo', 'Mesh entities and incidences meet their definitions',
     'For any valid cells, edges and faces are numbered uniquely, every cell '
     'refers to its local edges and faces in the reference order with the '
     'right vertices, and two orientation keys are equal exactly if the '
     'vertices are ordered in the same way. Incidence tables between entities '
     'are exact transposes of each other or exactly the entities that share '
     'or contain each other, each listed once. Selecting incident, complete '
     'or local entities of any subset gives exactly those defined by the '
     'tables, without errors or reads past the tables.',
     ['inputs', 'configurations'],
     'connectivity of cells, incidence tables, subsets of entities, vertex '
     'numbers',
     'Tests run a few meshes with a regular numbering and compare numbers of '
     'entities; the results depend on the vertex order and on which cells '
     'share what, which are too many to sample.',
     ['sfepy/discrete/common/extmods/mesh.c'],
     [('entities', 'sfepy/discrete/common/extmods/mesh.c'),
      ('incidences', 'sfepy/discrete/common/extmods/mesh.c')],
     'Bounded: holds for all inputs within the sizes listed in the evidence; '
     'CBMC and gcc are trusted; blocks of memory are modelled with a constant '
     'size.',
     technique='bounded model checking (CBMC, SAT) of the C source with '
     'symbolic connectivities; counterexamples replayed on a compiled build')
prop('C16', 'c_region', 'Regions contain exactly the entities their definition selects',
     'A region selected by vertices, cells, coordinate relations, groups, '
     'numbers or the mesh surface contains exactly the entities of its kind '
     'given by the selector; entities of lower dimension are those of them '
     'and entities not allowed by the kind are absent. Union, difference and '
     'intersection of any two regions in any entity kind give exactly the set '
     'result and leave the operands unchanged; copies are independent. '
     'Regions are defined after those they depend on in any order of '
     'definitions, circular or empty definitions are refused, and the cell '
     'and local facet tables list every incident cell (of the parent) once.',
     ['inputs', 'configurations', 'programs'],
     'selected sets of entities, coordinates, group numbers, selector '
     'expressions, kinds, dependency graphs',
     'Tests compare a few selectors on one mesh; the result depends on which '
     'entities the selection completes, on emptiness and on access order.',
     ['sfepy/discrete/common/region.py', 'sfepy/discrete/parse_regions.py',
      'sfepy/discrete/common/domain.py'],
     [('region entities', 'sfepy/discrete/common/region.py'),
      ('selectors', 'sfepy/discrete/common/domain.py'),
      ('grammar', 'sfepy/discrete/parse_regions.py')],
     'Bounded: meshes of two to four cells, all subsets of their entities; '
     'the entity queries of the mesh are taken from its connectivities '
     '(decided separately by C09).')
prop('C23', 'c_geom', 'Geometric and array utilities meet their definitions',
     'Circumcentres, volumes, areas, barycentric coordinates, inverse '
     'mappings, rotations and perpendicular vectors satisfy their defining '
     'equations for any non-degenerate input; tests of points in simplices, '
     'polygons, tubes and balls are true exactly for points inside. Batched '
     'products, inverses and norms, sums over repeated indices, row sorting '
     'and permutations, and composition of sparse matrices equal the '
     'element by element results, and arguments are not changed.',
     ['inputs', 'configurations'],
     'coordinates, points, matrix entries, index patterns',
     'Tests use single random arrays or standard shapes; conditions on '
     'boundaries, orientation and repeated items are not reached.',
     ['sfepy/linalg/geometry.py', 'sfepy/linalg/utils.py',
      'sfepy/linalg/sparse.py'],
     [('geometry', 'sfepy/linalg/geometry.py'),
      ('arrays', 'sfepy/linalg/utils.py'),
      ('sparse matrices', 'sfepy/linalg/sparse.py')], NUM)

prop('C18', 'c_refine', 'Refinement preserves the domain and continuity',
     'Uniform refinement of any mesh with one kind of cells splits each cell, '
     'in any local vertex order and for any coordinates, to congruent parts '
     'of the reference cell with the same orientation that fill it without '
     'overlaps, keeps the old vertices, adds one vertex per edge, face or '
     'cell, inherits cell groups and is conforming. Local refinement keeps '
     'cells and groups outside, and fields with hanging nodes are continuous '
     'on all interfaces for any degrees of freedom, contain the linear '
     'functions, and leave out exactly the substituted degrees of freedom, '
     'whose values can be restored.',
     ['inputs', 'configurations'],
     'vertex coordinates, local numberings of cells, sets of refined cells, '
     'points of the interfaces, DOF values and approximation orders',
     'Tests probe a smooth function on one grid within a tolerance; a wrong '
     'substitution for one relative orientation or interface kind is not '
     'met.',
     ['sfepy/discrete/fem/refine.py', 'sfepy/discrete/fem/refine_hanging.py',
      'sfepy/discrete/fem/fields_nodal.py',
      'sfepy/discrete/fem/fields_base.py'],
     [('uniform refinement', 'sfepy/discrete/fem/refine.py'),
      ('local refinement', 'sfepy/discrete/fem/refine_hanging.py:refine'),
      ('DOF substitutions',
       'sfepy/discrete/fem/fields_nodal.py:H1NodalMixin')], NUM)

prop('C21', 'c_iga', 'NURBS patches are represented exactly',
     'For any open knot vectors, degrees, control points and weights, the '
     'element-wise representation of a NURBS patch is the patch: the '
     'extraction operators, the element connectivity and the Bezier mesh '
     'describe the same functions and the same body, the basis sums to one, '
     'gradients and Jacobians are the derivatives of the mapping (compiled '
     'and reference evaluation agree), and a variable evaluated at any '
     'parameters of the patch is the combination of the basis functions. '
     'Degrees of freedom of a side are those that influence it, functions of '
     'the space are reproduced by the projection to a side, and a domain '
     'restored from its data has the same sides.',
     ['inputs', 'configurations'],
     'knots and their multiplicities, degrees, numbers of elements, weights, '
     'control points, parameters and reference points, variable values',
     'Tests compare the evaluations on three stored patches in a few '
     'points; repeated knots, mixed degrees and the derivatives are not met, '
     'and the comparison of restored regions is left out.',
     ['sfepy/discrete/iga/iga.py', 'sfepy/discrete/iga/extmods/nurbs.c',
      'sfepy/discrete/iga/extmods/igac.pyx', 'sfepy/discrete/iga/domain.py',
      'sfepy/discrete/iga/fields.py', 'sfepy/discrete/projections.py'],
     [('Bezier extraction',
       'sfepy/discrete/iga/iga.py:compute_bezier_extraction_1d'),
      ('basis evaluation',
       'sfepy/discrete/iga/extmods/nurbs.c:eval_nurbs_basis_tp'),
      ('restoring', 'sfepy/discrete/iga/domain.py:IGDomain')], NUM)

prop('C22', 'c_spline', 'B-splines and spline boxes are exact',
     'For any parameters, knots and control points, B-spline basis functions '
     'are non-negative, sum to one over the whole closed parameter range and '
     'give the points of the curve defined by the control polygon; generated '
     'knots cover the given range, clamped curves end in the end points and '
     'cyclic ones are closed. Inserting a knot does not change the curve. '
     'Surfaces are tensor products, approximations fulfil the least squares '
     'conditions. A spline box initially keeps all points, moves those inside '
     'by the tensor product spline of moved control points and leaves the '
     'others, and its derivative agrees with the motion.',
     ['inputs', 'configurations'],
     'parameters, knots, control points, points in and outside of a box, '
     'moves of control points, degrees and numbers of segments',
     'Tests compare one box with stored values; parameters at knots and at '
     'the ends, other ranges and repeated knots are not met.',
     ['sfepy/mesh/bspline.py', 'sfepy/mesh/splinebox.py'],
     [('basis', 'sfepy/mesh/bspline.py:BSpline.basis_function_dg'),
      ('knot insertion', 'sfepy/mesh/bspline.py:BSpline.insert_knot'),
      ('spline box', 'sfepy/mesh/splinebox.py:SplineBox')], NUM)
