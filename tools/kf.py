import json, subprocess
def g(s):
    return subprocess.check_output(['git','-C','/repo','log','--format=%h','--grep',s]).decode().split()[0]
L=[('C01','argument order in dw_st_adj_supg_c','dw_st_adj_supg_c swapped the state and the parameter: tangent differed from the residual derivative'),
('C01','DOF ordering in actBfT','dw_vm_dot_s assembled the vector DOFs in a wrong order'),
('C01','dw_lin_spring','dw_lin_spring stiffness matrix had wrong off-diagonal entries'),
('C01','dw_lin_dspring_rot','dw_lin_dspring_rot matrix did not transform the translation-rotation coupling'),
('C02','in dw_tl_he_svk','dw_tl_he_svk tangent was wrong and the material values were changed in place'),
('C02','stress of dw_tl_fib_spe','dw_tl_fib_spe stress had a misplaced parenthesis'),
('C02','fibre strain','fibre strain of dw_tl_fib_* terms ignored the factor of shear components'),
('C02','dw_tl_he_ogden','dw_tl_he_ogden stress and tangent were wrong'),
('C02','geme_mulT2S_AA','component order in geme_mulT2S_AA() gave a wrong 3D dw_ul_he_mooney_rivlin'),
('C02','factor two in the tangent','tangent modulus of dw_ul_he_mooney_rivlin lacked a factor two'),
('C03','cached variable evaluation in ev_integrate','ev_integrate multiplied the cached variable values in place: repeated evaluation changed the result'),
('C03','dw_v_dot_grad_s','dw_v_dot_grad_s used the transposed material in eval mode'),
('C03','traction tensor in eval mode','dw_surface_ltr used the transposed traction tensor in eval mode'),
('C03','dw_lin_strain_fib','dw_lin_strain_fib ignored the factor two of shear components'),
('C03','transposed velocity gradient','dw_st_adj_supg_c used the transposed velocity gradient'),
('C03','dw_convect_v_grad_s','dw_convect_v_grad_s used the Jacobian of the first element for all elements'),
('C03','different evaluation mode','multilinear (de_*) terms evaluated in a second mode reused the expression of the first mode'),
('C05','row upper bound in bsearch','bsearch() of the sparse matrix assembling used a wrong row end'),
('C20','2D contact search','out-of-bounds reads in the 2D contact search'),
('C12','get_initial_dt','ElastodynamicsBasicTSC.get_initial_dt() raised NameError'),
('C12','TimeStepper.__eq__','TimeStepper.__eq__() raised AttributeError or compared wrongly'),
('C05','several terms of the same name','evaluation by terms repeated terms of the same name in one equation'),
('C05','matrix graph creation for small chunk','the matrix graph creation with chunk size one never finished'),
('C15','not appearing in nodal LCBC','nodal_combination fixed DOFs not appearing in any constraint to zero'),
('C15','LCBCs combined with EPBCs','LCBCs combined with EPBCs had a wrong operator and number of DOFs'),
('C15','AverageForceOperator without','average_force without rotation DOFs failed'),
('C15','thread advance','rigid_twist advanced in all directions instead of along the axis'),
('C06','gradients of Bernstein','gradients of the Bernstein simplex basis were NaN on the element boundary'),
('C06','node coordinates of wedge','node coordinates of wedge elements of order two and higher were truncated to integers'),
('C06','sticky error state','a reported point outside of the element made all later basis evaluations return garbage'),
('C06','second derivatives of Lagrange simplex','second derivatives of simplex bases with bubble functions were wrong'),
('C07','full order quadratures','full order quadratures of tensor product cells above the tabulated orders raised UnboundLocalError'),
('C08','identify quadratures in caches','mappings, bases and material values of different quadratures of the same order (custom points, full order) were mixed in caches'),
('C08','inclined and downward facing','inclined surface elements in 3D raised ValueError, downward facing ones were reported as warped'),
('C08','facet normals of small facets','normals of facets with Jacobians below 1e-15 were not normalized'),
('C08','facet Jacobians and normals of hexahedra','facet Jacobians and normals of non-parallelogram facets were evaluated in other points than the basis: wrong surface integrals'),
('C12','PID time step controller shrinking','the PI(D) controller decreased the time step at each step of a system at rest'),
('C13','Bathe method loads','loads and boundary conditions of the Bathe method were applied half a step late'),
('C13','matrices of other than initial','with a controller given initial step and time derivatives of additional variables the matrices of another step were used'),
('C13','state of last but one step','the elastodynamics solvers returned the state of the last but one step'),
('C13','transformed with lost terms','automatic transformation of equations of elastodynamics dropped loads and coefficients of terms, duplicated terms with several unknowns'),
('C14','give_up_warp','Newton solver with give_up_warp raised UnboundLocalError when the first line search step failed'),
('C14','non-smooth mode of semi-smooth','the Jacobian of the non-smooth mode of the semi-smooth solver was inverted by mistake'),
('C19','sign of correction of plane stress','the plane stress dielectric tensor correction had a wrong sign'),
('C19','Poisson ratio from zero first Lame','Poisson ratio from a zero first Lame parameter and Young modulus was not a number'),
('C23','selection of points outside of tube','points selected outside of tubes and ball shells; get_perpendiculars() normalised its argument in place'),
('C23','dot_sequences() of vectors','dot_sequences() of vectors in BT modes raised ValueError'),
('C23','text output of CSC','text output of CSC matrices raised NameError'),
('C20','contact sphere normals','contact sphere normals were not a number for a point in the centre'),
('C16','region kinds with entities','regions of cells could not have facet or vertex kinds after a copy or cell operators (RecursionError), vertex regions could not have the *_only kinds'),
('C16','cell indices in regions without','get_cell_indices() searched unsorted cells of facet regions'),
('C14','SemismoothNewton takes','the steepest descent step of the semi-smooth solver used the residual of a rejected state; the number of iterations was not reported'),
('C18','refine_1_2 of meshes','refinement of 1D meshes with unsorted cells moved vertices to wrong cells'),
('C18','edge-only substitutions','refinement in 3D lost the hanging nodes on edges shared with a coarse cell only by an edge'),
('C18','spectral element fields use their own','spectral element fields with hanging nodes were discontinuous from order 3'),
('C21','IGDomain data keep the Bezier','an isogeometric domain of degree two or more restored from its data had wrong sides (the vertices were renumbered twice)'),
('C22','B-spline basis at the end','the B-spline basis vanished at the end of the knot range for ends of two and more: a spline box collapsed the points on its upper faces to zero; parameters given by the user were changed'),
('C22','cyclic knot vector with a general','cyclic knot vectors with a range other than (0, 1) were wrong'),
('C22','fix: BSpline.insert_knot','BSpline.insert_knot() raised TypeError'),
]
K=[('C07','3_6.4','integr|points inside','wedge quadratures of order 4 and more (not tabulated) use points and weights of the unit cube: the integrals are wrong (test_quadratures integrates over the cube, so a repair would fail it)'),
('C07','3_6.5','integr|points inside','wedge quadrature of order 5 uses the points and weights of the unit cube'),
('C07','3_6.6','integr|points inside','wedge quadrature of order 6 uses the points and weights of the unit cube'),
('C07','3_6.full.2','integr|points inside','full order wedge quadrature of order 2 has a lower degree of exactness'),
('C07','3_6.full.3','integr|points inside','full order wedge quadrature of order 3 has a lower degree of exactness'),
('C07','3_6.full.4','integr|points inside','full order wedge quadrature of order 4 has a lower degree of exactness'),
('C07','3_6.full.5','integr|points inside','full order wedge quadrature of order 5 has a lower degree of exactness'),
('C07','3_6.full.6','integr|points inside','full order wedge quadrature of order 6 has a lower degree of exactness'),
]
out=[]
for k,(p,s,w) in enumerate(L):
    h=g(s)
    out.append(dict(id='F%02d'%(k+1),status='fixed',property=p,commit=h,what='fixed: property=%s %s %s'%(p,h,w)))
for k,(p,c,l,w) in enumerate(K):
    out.append(dict(id='K%02d'%(k+1),status='known',property=p,case=c,label=l,what=w))
json.dump(out,open('/verif/known_findings.json','w'),indent=1)
