#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so wording stays reviewable)."""
import json, os
S='structuralcodes/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],
        state=[dict(name=a,meaning=b,where=S+c) for a,b,c in state],
        mechanism=[dict(name=a,where=S+c) for a,c in mech],
        observe_at=list(observe),hook_needed=None)))

p('C01','Polygon area moments are exact for every polygon and order',
 'For every closed polygon ring and every pair of non-negative orders (m, n), the polygon moment routine returns the exact integral of y^m z^n over the enclosed area, positive for counter-clockwise and negative for clockwise rings. Hence the value does not depend on the start vertex, on redundant vertices, or on how an area is cut into pieces, and holes subtract when traversed the other way.',
 ['inputs'],'all simple polygons (convex or not, any size, offset and vertex count) and all orders 0..6',
 'Tests integrate a few rectangles, circles and I-shapes for orders up to 2-3; the higher orders, off-origin, non-convex and reversed rings which the section integrator relies on are not reached.',
 ['core/_marin_integration.py'],[('recursive binomial moment formula','core/_marin_integration.py')],
 observe=['marin_integration return values'])

p('C02','Internal forces equal the area integral of the material stresses',
 'For every section (surfaces with or without holes, several parts, reinforcement points), every constitutive law and every strain plane (eps0, ky, kz), integrating the strain profile returns N, My and Mz equal to the integrals of sigma, sigma*z and -sigma*y over the surfaces plus the point contributions, with eps = eps0 + ky*z - kz*y and tension positive. The Marin integrator is exact up to round-off for laws that are piecewise polynomial (within its discretisation otherwise), the fibre integrator agrees within its mesh resolution, and both obey the same sign convention.',
 ['inputs','configurations'],'all section shapes, laws, strain planes (including strain limits passing exactly through vertices or along edges, zero and tiny curvature), both integrators and all mesh sizes',
 'Tests compare a handful of rectangular, T and I sections against each other at failure; they cannot cover the product of shapes, laws and strain planes, in particular degenerate alignments of strain limits with edges and holes.',
 ['sections/section_integrators/_marin_integrator.py','sections/section_integrators/_fiber_integrator.py','sections/_generic.py','geometry/_geometry.py'],
 [('strip splitting of polygons at strain limits','sections/section_integrators/_marin_integrator.py'),('triangulation into fibres','sections/section_integrators/_fiber_integrator.py'),('integrate_strain_profile','sections/_generic.py')],
 observe=['integrate_strain_profile(strain) for both integrators'])

p('C03','Section tangent stiffness is the derivative of the internal forces',
 'For every section, law and strain plane the tangent stiffness returned when integrating the modulus is the symmetric 3x3 matrix of integrals of Et*{1, z, -y}x{1, z, -y} over the section, with the same axes and signs as the internal forces. It therefore equals the derivative of (N, My, Mz) with respect to (eps0, ky, kz) wherever that derivative exists, and is positive semi-definite when no material softens.',
 ['inputs','configurations'],'all sections, laws, strain planes, both integrators',
 'Tests check the stiffness of rectangles at zero strain or a few elastic states only.',
 ['sections/section_integrators/_marin_integrator.py','sections/section_integrators/_fiber_integrator.py','sections/_generic.py'],
 [('integrate_modulus','sections/section_integrators/_marin_integrator.py'),('integrate_modulus','sections/section_integrators/_fiber_integrator.py')],
 observe=["integrate_strain_profile(strain, integrate='modulus')"])

p('C04','Section response does not depend on frame or on decomposition',
 'Translating, rotating or mirroring a whole section together with the strain plane transforms internal forces, stiffness, gross properties and bending resistance exactly as statics demands. Describing the same body differently (parts split along any line, parts listed in another order, a different start vertex or ring orientation) leaves every result unchanged, and internal forces of a union are the sum of those of its parts.',
 ['inputs','configurations'],'all sections, rigid motions, mirror axes, cutting lines, part orders',
 'The tests fix one frame per section and never relate two descriptions of the same body.',
 ['sections/_generic.py','sections/section_integrators/_marin_integrator.py','geometry/_geometry.py'],
 [('rotation of geometry to the curvature axis and back','sections/section_integrators/_marin_integrator.py'),('theta rotation and back-transformation','sections/_generic.py')],
 observe=['integrate_strain_profile, gross_properties, calculate_bending_strength of related sections'])

p('C05','Constitutive laws give the documented stress, tangent and limits',
 'For every valid parameter set and every strain, each constitutive law (elastic, elastic-plastic, parabola-rectangle, bilinear compression, Popovics, Sargin, user defined) returns the stress of its documented formula, zero where the material has no resistance or is beyond its ultimate strain, and reports the corresponding yield and ultimate strains. The tangent is the derivative of the stress wherever it exists, the secant is stress/strain (tangent at zero), and scalar, list and array arguments (integer or float) give the same values element by element.',
 ['inputs'],'all law parameters and all strains, in scalar, list, integer and float array form',
 'Tests sample single laws at a few strains; agreement of scalar and array code paths, tangents and limits over the whole parameter and strain range is not sampled.',
 ['core/base.py']+['materials/constitutive_laws/'+f for f in ('_elastic.py','_elasticplastic.py','_parabolarectangle.py','_bilinearcompression.py','_popovics.py','_sargin.py','_userdefined.py')],
 [('get_stress/get_tangent/get_secant/get_ultimate_strain','core/base.py'),('snapping of strains at the ultimate limits','core/base.py')],
 observe=['get_stress, get_tangent, get_secant, get_ultimate_strain'])

p('C06','Marin polynomials of a law reproduce its stress and tangent',
 'For every law and every linear strain field eps(z) = e0 + k*z, the strain ranges and polynomial coefficients a law supplies for Marin integration evaluate, at every z, to the stress (respectively the tangent) the law itself returns for eps(z), with zero outside all ranges. Laws without closed-form coefficients are represented by a piecewise-linear approximation that stays within a few percent of the peak stress.',
 ['inputs'],'all laws and parameters (including initial-strain and parallel compositions), all e0 and k including k = 0',
 'Tests pin coefficient tuples for a few parameter sets; the agreement with the stress function over all strains and fields is not tested.',
 ['core/base.py']+['materials/constitutive_laws/'+f for f in ('_elastic.py','_elasticplastic.py','_parabolarectangle.py','_bilinearcompression.py','_userdefined.py','_initial_strain.py','_parallel.py')],
 [('__marin__ / __marin_tangent__','core/base.py'),('piecewise-linear discretisation','core/base.py')],
 observe=['__marin__(strain), __marin_tangent__(strain)'])

p('C07','Composed laws: initial strain and parallel combination',
 'A law with initial strain e0 responds at strain eps exactly as the wrapped law at eps + e0 (limits shifted by -e0), or with the constant initial stress and negligible stiffness when strain compatibility is off; a material given an initial stress starts at exactly that stress. A parallel law returns the weighted sum of the stresses and tangents of its members. Compositions may be nested and behave the same in both integrators.',
 ['inputs','configurations'],'all wrapped laws, initial strains/stresses, weights, nestings, strains, and both integrators',
 'Tests combine two or three fixed laws; arbitrary nesting, weights, limits and agreement across integrators are not sampled.',
 ['core/base.py','materials/constitutive_laws/_initial_strain.py','materials/constitutive_laws/_parallel.py','materials/basic/_generic.py','materials/basic/_elastic.py','materials/basic/_elasticplastic.py'],
 [('InitialStrain wrapper','materials/constitutive_laws/_initial_strain.py'),('Parallel merge of ranges','materials/constitutive_laws/_parallel.py'),('initial strain from stress','core/base.py')],
 observe=['law responses, Material.initial_strain/initial_stress, section integration'])

p('C08','Section results are independent of the history of previous calls',
 'Whatever sequence of analyses (gross and cracked properties, limit axial loads, bending strength, moment-curvature, domains, strain profiles, strain integration) has been run on a section, including calls that raised an error, every further call returns what it would return on a freshly built identical section. This holds for both integrators and for every mesh size.',
 ['histories','fault_sequences','configurations'],'all finite sequences of public calculator calls with arbitrary arguments, including failing ones, for both integrators and all mesh sizes',
 'Unit tests build one section and run one or two analyses in a fixed order; cached integration data, in-place rotation of cached fibres and cached limits are only visible over histories.',
 ['sections/_generic.py','sections/_rc_utils.py','sections/section_integrators/_fiber_integrator.py','sections/section_integrators/_marin_integrator.py'],
 [('caching and rotating of integration data','sections/_generic.py')],
 state=[('integration_data','cached fibre/point data reused by later calls','sections/_generic.py'),('_n_min/_n_max/_gross_properties','cached results','sections/_generic.py')],
 observe=['results of every public calculator method after a random history vs. on a fresh section'])

p('C09','Analyses never modify the objects handed to them',
 'No query or analysis changes its arguments or shared objects: strain lists/arrays passed to laws, integrators or calculators, materials, constitutive laws, geometries and sections all have the same observable state afterwards, so one law or geometry can be shared between parts and sections. Geometry operations return new objects and leave their operands unchanged.',
 ['inputs','histories'],'all public law, geometry, integrator and calculator calls with list/array arguments and shared materials',
 'Tests look at return values only and never re-inspect arguments or share a law between parts near its strain limits.',
 ['core/base.py','sections/_generic.py','geometry/_geometry.py','materials/constitutive_laws/_userdefined.py','materials/constitutive_laws/_parallel.py','sections/section_integrators/_marin_integrator.py'],
 [('strain preprocessing at limits','core/base.py'),('copy-on-transform geometry','geometry/_geometry.py')],
 observe=['snapshots of arguments and of observable state before/after every call'])

p('C10','Bending strength is an equilibrated ultimate state',
 'For every neutral-axis angle theta and every axial load between the section limits, the bending strength reports a strain plane whose curvature has the direction of theta (bottom fibre stretched in the rotated frame), whose internal forces equal the requested n and the reported moments, and in which some material is exactly at its ultimate strain while none exceeds it. Axial loads outside the limits are rejected with an error, and the limits are the axial resistances under uniform strain.',
 ['inputs','configurations'],'all sections, theta, admissible n, both integrators',
 'Tests check single rectangular sections against stored numbers at n near 0 and theta 0 or pi/2.',
 ['sections/_generic.py'],
 [('balanced failure strain','sections/_generic.py'),('fixed-pivot bisection','sections/_generic.py'),('axial load check','sections/_generic.py')],
 observe=['calculate_bending_strength, n_min, n_max, calculate_limit_axial_load'])

p('C11','Moment-curvature points are in equilibrium along the requested path',
 'Every point of a moment-curvature result is a strain plane with the requested axial force, with curvature vector along the direction of theta, and with the reported moments as its internal forces; arrays have one entry per curvature and theta and n are echoed. User-given curvatures are used exactly; otherwise the curve starts at the first curvature, passes the yield curvature and ends at the curvature of the bending strength for the same theta and n, with the requested numbers of points.',
 ['inputs','configurations'],'all sections, theta, admissible n, curvature lists (any order, integer or float), point counts and integrators',
 'Tests compare lengths or a stored maximum for a few rectangular sections.',
 ['sections/_generic.py','core/_section_results.py'],
 [('fixed-curvature equilibrium with range search','sections/_generic.py'),('curvature grid from yield and ultimate states','sections/_generic.py')],
 observe=['calculate_moment_curvature'])

p('C12','Interaction domains consist of ultimate strain planes and their forces',
 'Each row of an N-M, N-M-M or M-M domain is a strain plane with the requested neutral-axis direction together with exactly the internal forces of that plane, labelled with its strain field; counts follow the requested discretisation and fields run in order from pure tension to pure compression. For reinforced concrete every plane respects the ultimate strains, the domain runs from the axial limit in tension to uniform compression of the concrete at its peak strain, the N-M-M domain is the collection of the N-M domains over the angles, and the M-M domain at n is the collection of the bending strengths at n.',
 ['inputs','configurations'],'all sections, theta, numbers and spacing types per field, total counts, num_theta, complete domains, n, both integrators',
 'Tests compare a few aggregate maxima and lengths for one or two sections.',
 ['sections/_generic.py','core/_section_results.py'],
 [('ultimate strain profiles of fields 1-6','sections/_generic.py'),('spacing generators','sections/_generic.py')],
 observe=['calculate_nm_interaction_domain, calculate_nmm_interaction_domain, calculate_mm_interaction_domain'])

p('C13','Strain plane found for given loads reproduces the loads',
 'For every section and every triplet (n, my, mz) the strain-profile search either returns a strain plane whose internal forces equal the requested loads within the requested tolerance on the strains of the section, or reports non-convergence with an error; it never returns an unconverged plane. Linear elastic sections are solved exactly for any loads, units and section position.',
 ['inputs','configurations'],'all sections, loads inside and outside the resistance, tangent and initial stiffness iterations, iteration limits and tolerances, both integrators',
 'Tests use elastic and rectangular RC sections with loads on a small grid.',
 ['sections/_generic.py'],[('Newton iteration on the section stiffness','sections/_generic.py')],
 observe=['calculate_strain_profile'])

p('C14','Gross section properties are the exact geometric and elastic integrals',
 'For every section the gross properties equal the integrals over its parts: area and reinforcement area, mass per length, axial rigidity, first and second moments about the origin, elasticity-weighted centroid, centroidal moments obeying the parallel-axis theorem, and outer perimeter. Principal moments are the extrema (i11 >= i22, same sum and determinant as the centroidal moments) and the principal angles point along the corresponding axes; the same holds for the elasticity-weighted set. Printing the result shows every property with its value in the requested number format, and two results are reported as close exactly when all their properties agree within the tolerance.',
 ['inputs','configurations'],'all geometries (holes, several disjoint or touching parts, points), materials, densities, positions, both integrators',
 'Tests check a few centred symmetric shapes; unsymmetric, off-origin and multi-part sections are barely covered.',
 ['sections/_generic.py','core/_section_results.py'],
 [('unit-curvature integration for moments','sections/_generic.py'),('eigen decomposition for principal axes','sections/_generic.py')],
 observe=['GenericSection.gross_properties'])

p('C15','Cracked elastic properties use the compressed concrete and all steel',
 'For every reinforced concrete section and angle theta, the cracked properties are those of the transformed section made of all reinforcement and non-concrete parts and exactly that part of the concrete on the compressed side of the neutral axis for which pure bending about theta gives zero axial force with no concrete tension. The returned cracked geometry is expressed in the original frame, and non-concrete sections yield no result.',
 ['inputs','configurations'],'all reinforced concrete sections, theta, both integrators and mesh sizes',
 'Tests use one rectangular section with theta 0 and pi and both integrators.',
 ['sections/_rc_utils.py','geometry/_geometry.py','sections/_generic.py'],
 [('elastic no-tension law and cut at neutral axis','sections/_rc_utils.py')],
 observe=['calculate_elastic_cracked_properties'])

p('C16','Geometry operations preserve area, material and identity data',
 'Translation, rotation and mirroring are exact isometries of every part and point, keep materials, concrete flags, diameters, names and group labels, and compose and invert as rigid motions do. Addition collects all parts and points, subtraction removes exactly the overlapping area, splitting by a line or a point and angle returns pieces that lie on their stated side and together make up the original area, and conversion to another material changes only the material.',
 ['inputs','histories'],'all surfaces, points and compounds, all lines/angles (including vertical), all sequences of operations',
 'Tests apply single operations to a few rectangles.',
 ['geometry/_geometry.py','geometry/_rectangular.py','geometry/_circular.py'],
 [('affine transforms of parts','geometry/_geometry.py'),('split / split_two_lines','geometry/_geometry.py')],
 observe=['coordinates, areas, materials, labels of results'])

p('C17','Reinforcement layouts place the requested bars exactly',
 'Adding single, line or circular reinforcement adds precisely the requested bars: the count follows n, s and the first/last flags, bars are equally spaced (with the given s, centred, when s is given), lie on the segment or arc within its ends, and carry the given diameter, material and group label, while the original geometry is left unchanged. Requests that do not fit are rejected.',
 ['inputs'],'all end points, centres, radii, angles, n, s, first/last combinations, base geometries',
 'Tests check a few symmetric layouts; combinations of n, s, first, last and partial arcs are sampled thinly.',
 ['geometry/_reinforcement.py','geometry/_geometry.py'],
 [('add_reinforcement_line / add_reinforcement_circle','geometry/_reinforcement.py')],
 observe=['point_geometries of the returned geometry'])

p('C18','Steel profiles are consistent with their catalogue dimensions',
 'For every catalogue profile the polygon has the tabulated height, width and thicknesses, is valid, counter-clockwise, centred and symmetric as its type demands, and its area equals the closed-form area from dimensions and fillets. All reported section properties (A, Iy, Iz, Iyz, principal moments and angle, elastic and plastic moduli, radii of gyration) equal those of that polygon whatever property is asked first, naming variants agree and unknown names are rejected.',
 ['inputs','histories'],'every profile of every family and every order of property access',
 'Tests compare selected properties of selected profiles with catalogue values at 1-2 % tolerance, each on a fresh object in one order.',
 ['geometry/profiles/_base_profile.py','geometry/profiles/_common_functions.py']+['geometry/profiles/_%s.py'%x for x in 'ipe he ipn upn upe u ub uc ubp hp hd l li w'.split()],
 [('lazy property computation','geometry/profiles/_base_profile.py'),('polygon builders','geometry/profiles/_common_functions.py')],
 state=[('cached properties and rotated polygon','lazily computed section properties','geometry/profiles/_base_profile.py')],
 observe=['all public attributes of profile objects'])

p('C19','Material objects derive code properties and honour user values',
 'Concrete and reinforcement objects of every code report derived properties (means, tensile strengths, moduli, limit strains, design strengths) equal to the code formulas applied to their own inputs, unless the user supplied a value, which is then used everywhere it enters. Their constitutive laws are built from exactly these properties for every law keyword, invalid input is rejected, and creation through a factory equals direct construction.',
 ['inputs','configurations'],'all strengths, partial factors, optional user values, law keywords, ductility classes and codes',
 'Tests fix a few strength classes and override one value at a time.',
 ['materials/concrete/_concreteEC2_2004.py','materials/concrete/_concreteEC2_2023.py','materials/concrete/_concreteMC2010.py','materials/reinforcement/_reinforcementEC2_2004.py','materials/reinforcement/_reinforcementEC2_2023.py','materials/reinforcement/_reinforcementMC2010.py','materials/concrete/__init__.py','materials/reinforcement/__init__.py','materials/constitutive_laws/__init__.py','core/base.py'],
 [('lazy derived properties','materials/concrete/_concreteEC2_2004.py'),('constitutive law factory','materials/constitutive_laws/__init__.py')],
 observe=['public properties, constitutive_law responses'])

p('C20','Design-code selection is exact and isolated',
 'After selecting a design code, exactly that code is used by the material factories until another is selected; code names are accepted case-insensitively for all advertised codes and nothing else, and a rejected selection leaves the active code unchanged. Passing a design code to a factory applies to that material only: the global selection is the same before and after, whether or not creation succeeds.',
 ['histories','inputs'],'all sequences of selections, factory calls with and without explicit code, and failing calls',
 'Tests select codes one at a time and never observe the selection after factory calls.',
 ['codes/__init__.py','materials/concrete/__init__.py','materials/reinforcement/__init__.py'],
 [('global active code','codes/__init__.py')],
 state=[('active design code','code used when none is passed','codes/__init__.py')],
 observe=['class and properties of created materials, get_design_codes'])

p('C21','Material-property functions implement the code formulas everywhere',
 'For every admissible argument the concrete and reinforcement property functions of EC2:2004, EC2:2023 and Model Code 2010 return the value of the code formula or table (mean and tensile strengths, moduli, limit strains, law parameters, strength development, sustained-load and size factors, design values, prestressing steel data), in consistent units and sign conventions. Tabulated data are reproduced at the nodes and interpolated between them, branches join continuously where the code does, and arguments outside the scope are rejected.',
 ['inputs'],'all arguments over the whole validity range of each function, branch boundaries, tables and class names',
 'Tests pin tables of single values per function, mostly at standard strength classes.',
 ['codes/ec2_2004/_concrete_material_properties.py','codes/ec2_2004/_reinforcement_material_properties.py','codes/ec2_2023/_section5_materials.py','codes/ec2_2023/_annexB_time_dependent.py','codes/mc2010/_concrete_material_properties.py','codes/mc2010/_reinforcement_material_properties.py'],
 [('code formula functions','codes/ec2_2004/_concrete_material_properties.py')],
 observe=['return values and raised errors'])

p('C22','Creep and shrinkage functions follow the code models at all ages',
 'For every concrete, cement class, humidity, notional size, temperature history and age, the creep and shrinkage functions of EC2:2004, EC2:2023 and Model Code 2010 return the code value: zero at the start, monotone in time towards the notional final value, equal for scalar and array times, and composed as the code composes them. Arguments outside the validity range are rejected or warned about as documented.',
 ['inputs'],'all admissible parameters and ages including the ages at start of loading/drying, scalars and arrays',
 'Tests pin single values at a few ages; monotonicity, limits, array agreement and boundary ages are not covered.',
 ['codes/ec2_2004/_concrete_creep_and_shrinkage.py','codes/mc2010/_concrete_creep_and_shrinkage.py','codes/ec2_2023/_section5_materials.py'],
 [('creep and shrinkage factor functions','codes/mc2010/_concrete_creep_and_shrinkage.py')],
 observe=['return values, errors, warnings'])

p('C23','Shear, torsion, punching, interface and bond resistances follow the codes',
 'For every admissible geometry, material, reinforcement and load, the shear, torsion, punching, casting-interface and bond functions of EC2:2004 and Model Code 2010 return the value of the code expressions, with every partial factor applied exactly once, caps and minima active where the code states them, and total resistances never exceeding their upper limits. Dispatchers (approximation levels, with or without reinforcement) return the value of the level asked for, and inadmissible arguments are rejected or warned about.',
 ['inputs'],'all admissible arguments, approximation levels, strut angles, reinforcement inclinations, load signs and caps',
 'Tests pin individual values; few exercise caps, load signs, inclined reinforcement or partial factors in dispatchers.',
 ['codes/ec2_2004/shear.py','codes/mc2010/_concrete_shear.py','codes/mc2010/_concrete_torsion.py','codes/mc2010/_concrete_punching.py','codes/mc2010/_concrete_interface_different_casting_times.py','codes/mc2010/_interface_concrete_steel_rebar.py'],
 [('resistance functions and level dispatchers','codes/mc2010/_concrete_shear.py')],
 observe=['return values, errors, warnings'])

p('C24','Crack control and serviceability functions follow the codes',
 'For every admissible argument the minimum-reinforcement, crack-spacing, strain-difference, crack-width, restraint and deflection functions of EC2:2004, EN 1992-3 and EC2:2023 return the value of the code expressions and tables, including their lower and upper limits, and combined functions equal the composition of their parts. Arguments outside the documented range are rejected.',
 ['inputs'],'all admissible arguments including the regions where limits govern and table interpolation',
 'Tests pin single values per function and few limit branches.',
 ['codes/ec2_2004/_section_7_3_crack_control.py','codes/ec2_2004/_cracking_restraint_imposed_deformations.py','codes/ec2_2023/_section9_sls.py'],
 [('crack control functions','codes/ec2_2004/_section_7_3_crack_control.py')],
 observe=['return values and errors'])

p('C25','Section analyses do not depend on the unit system',
 'Constitutive laws and sections are unitless: describing the same section, laws and loads in any consistent set of units (lengths scaled by L, forces by F, stresses by F/L^2, curvatures by 1/L) gives, for every analysis (strain integration in both modes, gross and cracked properties, limit axial loads, bending strength, moment-curvature, interaction domains, strain profile for given loads), the same result converted by its physical dimension, up to round-off and the absolute force tolerance of 0.01 of the equilibrium searches; calls which fail in one unit system fail in the other. Fibre meshes respect the mesh size in any unit of length.',
 ['inputs','configurations'],'all sections, laws and analyses, both integrators, usual unit systems (N-m, kN-m, kN-cm, kip-in, tf-m, ...) and arbitrary power-of-two factors',
 'All tests are written in N and mm, so absolute tolerances and constants which only suit these units cannot be seen.',
 ['sections/_generic.py','sections/_rc_utils.py','sections/section_integrators/_fiber_integrator.py','sections/section_integrators/_marin_integrator.py','geometry/_geometry.py'],
 [('searches for equilibrium','sections/_generic.py'),('triangulation','sections/section_integrators/_fiber_integrator.py')],
 observe=['results of all section analyses of the scaled and the original section'])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
