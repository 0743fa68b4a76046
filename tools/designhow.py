"""How each property is decided (for DESIGN.md)."""
MISSED = {}
HOW = {
'C01': 'every term class of the term table with a weak mode is instantiated '
  'by its declared argument shapes on small meshes; the residual and the '
  'matrix are evaluated by Term.evaluate() with all DOFs and materials '
  'symbolic, the oracle is the symbolic derivative of the returned residual. '
  'The term table is enumerated at run time, so new terms are included. '
  'Tests sample none of the derivative entries.',
'C02': 'total and updated Lagrangian hyperelastic terms: the derivative as '
  'in C01, differences between the formulations, between special cases of '
  'materials, and repeated evaluation with different states.',
'C03': 'an independent evaluation of the integrand of the term '
  'documentation (strong formulas over exact simplex geometry) for symbolic '
  'states, test functions and materials; all evaluation modes against each '
  'other; einsum-based terms against the C ones.',
'C05': 'whole problems are created (fields, variables, boundary conditions, '
  'equations), the reduced residual and matrix are compared with '
  'P^T r(P x + x0) assembled by an independent dense sum over the elements; '
  'the map P comes from the definitions of the conditions at node '
  'coordinates.',
'C06': 'basis functions of every polynomial space (C kernels through '
  'Cython) at a symbolic point: derivative arrays against symbolic '
  'derivatives, partition of unity/nodality/polynomial completeness (fits '
  'with exact rational matrices), traces on facets, Hessians.',
'C07': 'sum of weights times an arbitrary polynomial (symbolic '
  'coefficients) equals the exact integral by rational arithmetic; points '
  'inside the reference cell; composed and facet quadratures.',
'C08': 'symbolic vertex coordinates through the CMapping C code: Jacobians, '
  'inverse gradients, normals, volumes against polynomial formulas over the '
  'exact reference shape functions; errors exactly for non-positive '
  'Jacobians; caches by histories of evaluate/clear calls.',
'C09': 'CBMC runs mesh_build/mesh_transpose/mesh_intersect/selection of '
  'mesh.c with a symbolic connectivity; the oracle is a direct definition in '
  'the harness (entity = set of vertices). Reachability runs prove the '
  'harnesses not vacuous.',
'C10': 'two cells sharing a facet in every relative orientation, the field '
  'is set up by sfepy, the DOF values and a point on the shared facet are '
  'symbolic; both traces have to be the same polynomial.',
'C12': 'time steppers and adaptive controllers with symbolic times, errors '
  'and outcomes; an independent model of the documented rules runs over the '
  'recorded history.',
'C13': 'one or several steps of each integrator with symbolic matrices '
  '(1-2 DOFs), states and loads, with a stub of the nonlinear solver '
  'returning any vector; equation of motion residual and update formulas are '
  'the oracle; changing step sizes and repeated (rejected) steps.',
'C14': 'Newton and line search with residual/solver stubs returning any '
  'values or failing; a model of the documented algorithm decides the number '
  'of evaluations, accepted iterates, the status and the conditions of '
  'termination.',
'C15': 'as in C05, with linear combination conditions: the operator is '
  'compared with the constraints evaluated at the full state '
  '(no-penetration, rigid, integral mean, shifted periodic, match, ...), and '
  'the reduced system with the Galerkin projection.',
'C16': 'region definitions are parsed and evaluated with symbolic '
  'selections: one Boolean per vertex or cell, the entities of the resulting '
  'region are Boolean formulas compared with a model by set definitions over '
  'the raw cell vertices. Coordinates and groups are symbolic numbers; '
  'dependency graphs are symbolic adjacency matrices.',
'C18': 'the refinement functions run with symbolic vertex coordinates '
  '(topology from the real mesh, centroids as vertex means), the positions of '
  'new vertices and volumes are compared with the reference lattice; fields '
  'with hanging nodes are evaluated from both sides in a symbolic point of '
  'each interface for each basis function.',
'C19': 'conversions of elastic constants, tensor storage and '
  'transformations (rotation by the Cayley map, so that all are rational), '
  'stress measures, shell and membrane geometry.',
'C21': 'the Bezier extraction runs with symbolic distinct knots for all '
  'listed multiplicities and is compared with blossoms of the B-spline '
  'pieces; the compiled evaluation (nurbs.c through Cython) and the Python '
  'one run with symbolic reference points, weights and DOFs, the oracle is '
  'the tensor product of de Boor values and their derivatives.',
'C22': 'spline classes run with symbolic parameters, knots and control '
  'points (one path per knot interval); the oracle is the de Boor algorithm '
  'written independently, and tensor products of it for boxes and surfaces.',
'C23': 'geometric and array helpers against defining equations with '
  'symbolic coordinates and values.',
}
