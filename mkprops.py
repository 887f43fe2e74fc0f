#!/usr/bin/env python3
# Regenerates properties.jsonl (the single place where the property texts are edited).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],hook_needed=hook)))

p("C01","Reference tables are the element's nodal basis on the cell and on its facets",
  "For every supported element type and every accepted quadrature rule and order, the delivered shape-function values and reference gradients are those of that element's nodal basis in the mesh-file (VTK/meshio) node ordering, at points inside the cell, and the weights integrate every polynomial up to the requested order exactly. The facet tables describe the cell's own facets: facet k's vertex list, quadrature points, weights and outward normal all belong to the same facet, each facet of the cell appears exactly once, and the facet weights integrate over the facet's own area.",
  ["configurations"],"all 9 element types x all quadrature rules x orders (default and explicit)",
  "The tests use HEX8 with the default rule only; the other eight orderings, the facet tables of all of them and every explicit rule/order are never tabulated.",
  ["jax_fem/basis.py"],[("element registry and node reordering","jax_fem/basis.py:get_elements"),("cell tables","jax_fem/basis.py:get_shape_vals_and_grads"),("facet tables","jax_fem/basis.py:get_face_shape_vals_and_grads"),("facet vertex renumbering","jax_fem/basis.py:reorder_inds"),("rule normalisation","jax_fem/basis.py:_normalize_quadrature_rule")],
  ["return values of get_shape_vals_and_grads / get_face_shape_vals_and_grads, attributes of FiniteElement"])

p("C02","Geometric mapping reproduces polynomial fields and measures exactly",
  "On any valid mesh (any element type, distorted cells, any node numbering), the physical shape gradients differentiate every linear nodal field exactly at every cell and facet quadrature point, the cell measures sum to the cell's exact volume and first moments, and the facet measures to the facet's exact area and first moments. Nodal-to-quadrature interpolation of values, of gradients and of facet values, and the physical quadrature points, agree with the field they interpolate, component by component. Recomputing the geometry for moved nodes gives what a mesh with those nodes gives.",
  ["inputs","configurations"],"all meshes with integer or rational node coordinates, all element types, all facets, all vector sizes",
  "Tests see axis-aligned or mildly curved HEX8 meshes with one vector size and compare only final displacements.",
  ["jax_fem/fe.py","jax_fem/problem.py"],[("gradients and JxW","jax_fem/fe.py:FiniteElement.get_shape_grads"),("facet gradients and Nanson scale","jax_fem/fe.py:FiniteElement.get_face_shape_grads"),("quadrature points","jax_fem/fe.py:get_physical_quad_points, get_physical_surface_quad_points"),("interpolation","jax_fem/fe.py:convert_from_dof_to_quad, convert_from_dof_to_face_quad, sol_to_grad"),("re-initialisation","jax_fem/problem.py:Problem.initialize_geometric_quantities")],
  ["FiniteElement methods, Problem.physical_quad_points / JxW / shape_grads / nanson_scale"])

p("C03","Surface selection returns exactly the facets whose vertices satisfy it",
  "For any mesh and any list of location predicates (of the point, or of the point and the node index), the k-th returned boundary set contains every (cell, local facet) pair all of whose facet vertices satisfy the k-th predicate, contains it once, and contains nothing else. Counting selected faces on the mesh agrees with the selection.",
  ["inputs","configurations"],"all meshes, element types and predicates (one or two arguments, several predicates at once, none, empty and full selections)",
  "Tests only select one flat side of a box by coordinate.",
  ["jax_fem/fe.py","jax_fem/generate_mesh.py"],[("selection","jax_fem/fe.py:FiniteElement.get_boundary_conditions_inds"),("count","jax_fem/generate_mesh.py:Mesh.count_selected_faces"),("facet vertex lists","jax_fem/basis.py:get_face_shape_vals_and_grads")],
  ["Problem.boundary_inds_list, Mesh.count_selected_faces"])

p("C04","Dirichlet data constrains exactly the selected dofs, and the last condition wins",
  "The constrained dofs of a problem are exactly the (node, component) pairs selected by the location predicates (of the point, or of the point and node index) of the currently installed conditions, for every variable of the problem; each carries the value function's value at that node, and where conditions overlap the one listed last decides. The constrained residual is (u - value) on those dofs and the untouched residual elsewhere, the assign/zero/one/copy operations touch those dofs and no others, and installing new conditions replaces the old ones entirely.",
  ["inputs","histories"],"all lists of conditions, all variables/components, all sequences of updates",
  "Tests use disjoint plane selections on one variable and never overlap, empty, index-based or multi-variable conditions.",
  ["jax_fem/fe.py","jax_fem/solver.py"],[("selection and values","jax_fem/fe.py:FiniteElement.Dirichlet_boundary_conditions"),("replacement","jax_fem/fe.py:FiniteElement.update_Dirichlet_boundary_conditions"),("residual rows","jax_fem/solver.py:apply_bc_vec, apply_bc"),("vector operations","jax_fem/solver.py:assign_bc, assign_zeros_bc, assign_ones_bc, copy_bc")],
  ["FiniteElement.node_inds_list/vec_inds_list/vals_list, the *_bc functions"],
  [("node_inds_list, vec_inds_list, vals_list","installed conditions","jax_fem/fe.py")])

p("C05","The assembled residual is the sum of every cell and selected facet exactly once",
  "For any mesh size, cell order, node numbering, number of variables and components, the residual is the sum over all cells of the cell weak form plus the sum over every selected facet of its own surface weak form, each taken exactly once with its own parameters and scattered to its own dofs. In particular it does not depend on how cells are grouped for evaluation, and volume terms given as flux, mass or universal kernels (and surface terms likewise) add up.",
  ["inputs","configurations"],"all cell counts (including fewer than, equal to and not divisible by any batch count), all kernel combinations, all variable layouts",
  "Tests use five fixed meshes, one variable, one kernel kind and at most one surface; a wrong batch boundary or offset for another size or layout is invisible.",
  ["jax_fem/problem.py"],[("batched cell evaluation","jax_fem/problem.py:Problem.split_and_compute_cell"),("surface evaluation","jax_fem/problem.py:Problem.compute_face"),("scatter","jax_fem/problem.py:Problem.compute_residual_vars_helper"),("kernels","jax_fem/problem.py:get_laplace_kernel, get_mass_kernel, get_surface_kernel, pre_jit_fns")],
  ["Problem.compute_residual, Problem.newton_update"])

p("C06","The assembled tangent is the exact derivative of the constrained residual",
  "For every problem (volume and surface terms, nonlinear and unsymmetric kernels, several variables) and every state, the matrix the solver uses equals the derivative of the residual on unconstrained rows and the identity on constrained rows, at that state, with the parameters and Dirichlet conditions installed at that moment, and the residual returned alongside it is the plain residual of the same state. This holds after any sequence of earlier assemblies, solves and condition changes.",
  ["inputs","histories"],"all kernels, all states, all sequences of assembly, parameter change and boundary-condition change",
  "A slightly wrong tangent still converges to the reference solution in the tests; nothing compares the matrix itself, and only one test ever changes conditions between assemblies.",
  ["jax_fem/problem.py","jax_fem/solver.py"],[("dof numbering","jax_fem/problem.py:Problem.__post_init__ (I, J, offset)"),("element Jacobians","jax_fem/problem.py:pre_jit_fns, compute_newton_vars"),("cached matrix and row elimination","jax_fem/solver.py:get_A")],
  ["Problem.I/J/V, get_A(problem), the matrix handed to custom_solver"],
  [("V","values of the last assembly","jax_fem/problem.py"),("cached tangent","reused matrix with constrained rows","jax_fem/solver.py")])

p("C07","The Newton solver follows Newton's method and returns only converged states",
  "Starting from the given initial guess (or zero), each iteration hands the linear solver the current tangent and the negated current constrained residual, and adds the returned increment (scaled by the step-halving line search when requested, which picks the last step length of 1, 1/2, 1/4, 1/8 before the residual norm first increases). Iteration stops exactly when the residual norm has fallen to the absolute tolerance or to the relative tolerance times the initial norm, and the state returned is the last iterate; a solve that produces non-finite values raises instead of returning.",
  ["inputs","histories"],"all residuals, all sequences of linear-solver answers, all tolerances, guesses and line-search choices",
  "Tests check only final solutions of well-behaved problems solved with default settings; the iteration itself, its stopping rule, its line search and its failure path are unobserved.",
  ["jax_fem/solver.py"],[("Newton loop","jax_fem/solver.py:solver"),("step","jax_fem/solver.py:newton_step"),("line search","jax_fem/solver.py:line_search")],
  ["the custom linear solver callback (A, b, x0), the solution returned by solver()"])

p("C08","Options select what they name; every linear backend solves its given system",
  "Every documented form of solver options (nested, legacy flat, defaulted) runs the nonlinear method and linear backend it names with exactly the option values given, asking for several methods or a malformed method is rejected, and the caller's option dictionaries are left as they were. Every available linear backend and its documented settings return a solution of the system they were given, for symmetric and unsymmetric matrices, and fail loudly rather than return a wrong one.",
  ["configurations","inputs"],"all option dictionaries in the documented grammar, all available backends and settings, all regular matrices",
  "Tests call the solver with defaults or one option; precedence, defaulting, legacy forms and most backends never run.",
  ["jax_fem/solver.py"],[("option resolution","jax_fem/solver.py:_resolve_solver_options, solver"),("backend dispatch","jax_fem/solver.py:linear_solver"),("backends","jax_fem/solver.py:jax_solve, scipy_spsolve, petsc_solve")],
  ["solver(), linear_solver(), which callback runs with which options"])

p("C09","Reverse-mode gradients are the exact implicit derivative of their forward call",
  "For any differentiable parameters (material, source, surface, boundary-value or geometry, as any pytree) the gradient of any function of the solution through the differentiable wrapper equals the exact derivative of the discrete solution map at the parameters of that forward call. This holds whatever other forward and backward calls were made in between, for unsymmetric problems and several variables, and afterwards the problem object is usable as after a plain forward solve with those parameters.",
  ["inputs","histories"],"all parameter pytrees and all interleavings of forward, backward and plain solves",
  "There is no test of gradients at all.",
  ["jax_fem/solver.py"],[("adjoint","jax_fem/solver.py:implicit_vjp"),("wrapper","jax_fem/solver.py:ad_wrapper")],
  ["jax.vjp / jax.grad through ad_wrapper(problem)"],
  [("internal_vars, internal_vars_surfaces","parameters last installed by set_params","jax_fem/problem.py")])

p("C10","Multipoint constraints hold in the solution and reduce the system consistently",
  "When a constraint matrix P is attached to a problem, the solve returns u = P u_r for some reduced vector u_r at which the reduced residual P^T r(P u_r) meets the stopping rule, using the reduced tangent P^T A P, and gradients through such a solve are exact too. Periodic tying matrices have one unit entry per row, tie exactly the mapped dof pairs, and leave every other dof free; initial guesses and line search work as without constraints.",
  ["inputs","configurations"],"all 0/1 tying matrices and general full-column-rank P, all options, with and without Dirichlet conditions",
  "No test attaches a constraint matrix.",
  ["jax_fem/solver.py","applications/periodic_bc/example.py"],[("reduced solve","jax_fem/solver.py:solver, newton_step, get_A"),("reduced adjoint","jax_fem/solver.py:implicit_vjp"),("periodic tying matrix","applications/periodic_bc/example.py:periodic_boundary_conditions")],
  ["solver() and ad_wrapper() with problem.P_mat set"])

p("C11","Arc-length continuation stays on the path at the prescribed arc length",
  "Every continuation step ends at an equilibrium for its load factor, at the prescribed arc length from the previous step, on the root that continues in the direction of travel, for displacement and for force control. Continuation stops at the first step whose load factor reaches 1 or after the allowed number of steps; history, callbacks and metadata report exactly the steps taken; the full-load solution is returned, as a converged equilibrium, exactly when load factor 1 was reached, and otherwise the last continuation state with the metadata saying so.",
  ["inputs","histories"],"all load paths (including snap-through), step lengths, step limits and control modes",
  "There is no test of arc-length continuation.",
  ["jax_fem/solver.py"],[("steps","jax_fem/solver.py:arc_length_solver_disp_driven, arc_length_solver_force_driven"),("outer loops","jax_fem/solver.py:_solve_arc_length_disp, _solve_arc_length_force"),("finish","jax_fem/solver.py:_finish_arc_length")],
  ["step_callback, return_info metadata, returned solution"])

p("C12","Dynamic relaxation returns an equilibrium that satisfies the boundary data",
  "When dynamic relaxation returns, every unconstrained residual component is at most the requested tolerance and every constrained dof has its prescribed value, for any number of variables, whatever the initial guess, the options or the frequency of tangent recomputation. A start that is already at equilibrium is returned unchanged.",
  ["inputs","configurations"],"all stable problems, initial guesses, tolerances and recomputation intervals",
  "There is no test of dynamic relaxation.",
  ["jax_fem/solver.py"],[("relaxation","jax_fem/solver.py:dynamic_relax_solve"),("lumped stiffness","jax_fem/solver.py:assembleCSR"),("damping","jax_fem/solver.py:calC")],
  ["solver(problem, {'dynamic_relax': ...})"])

p("C13","The MMA optimiser keeps its asymptotes, bounds and subproblem optimality",
  "Each MMA update moves the asymptotes by the published rule from the last three iterates and keeps them strictly around the current point, returns a point within the bounds, the move limit and the asymptotes, and that point with its multipliers satisfies the optimality conditions of the convex subproblem, for one or many constraints (fewer or more than variables). The optimisation driver feeds it the (filtered) gradients and the right history, evaluates the objective and constraints at the current design only, and makes exactly the requested number of iterations; the sensitivity filter uses the radius-weighted neighbour average.",
  ["inputs","histories"],"all iterates, bounds, gradients, numbers of constraints and iteration histories",
  "There is no test of the optimiser.",
  ["jax_fem/mma.py"],[("update","jax_fem/mma.py:MMA.mmasub"),("subproblem","jax_fem/mma.py:subsolv"),("driver","jax_fem/mma.py:optimize"),("filter","jax_fem/mma.py:compute_filter_kd_tree, applySensitivityFilter, applyDensityFilter")],
  ["MMA public methods, optimize(), the objective and constraint callbacks"],
  [("epoch, xold1, xold2, lowAsymp, upAsymp","optimiser history","jax_fem/mma.py")])

p("C14","Generated meshes tile the domain conformingly with positively oriented cells",
  "For all division counts, side lengths and element types a mesh generator accepts, the mesh covers the requested domain exactly once with the requested number of cells per direction, every cell is positively oriented in the library's node ordering, every interior facet is shared by exactly two cells and boundary facets lie on the domain boundary, and there are no unused or duplicate nodes.",
  ["inputs","configurations"],"all (Nx, Ny, Nz), lengths and element types; cylinder parameters",
  "Tests use stored meshes; the generators only serve a one-cell fixture.",
  ["jax_fem/generate_mesh.py"],[("structured","jax_fem/generate_mesh.py:rectangle_mesh, box_mesh"),("gmsh","jax_fem/generate_mesh.py:box_mesh_gmsh, cylinder_mesh_gmsh"),("names","jax_fem/generate_mesh.py:get_meshio_cell_type"),("orientation check","jax_fem/generate_mesh.py:check_mesh_TET4")],
  ["points and cells of the returned meshes"])

p("C15","Saved results read back as what was saved",
  "A saved solution file read back contains the element's points, its cells with the right cell type, the solution and every named point and cell field given, each under its name with its values (in single precision) and no others, for all element types, overwriting earlier content; wrongly sized data is rejected, and the caller's data is not modified. File conversion and parsing helpers preserve everything but what they are meant to change.",
  ["inputs","configurations","histories"],"all element types, field sets, destinations and sequences of saves",
  "Tests save one solution of HEX8 meshes and read back only that field.",
  ["jax_fem/utils.py"],[("save","jax_fem/utils.py:save_sol"),("conversion","jax_fem/utils.py:modify_vtu_file, read_abaqus_and_write_vtk, json_parse"),("timing wrappers","jax_fem/utils.py:timeit, walltime")],
  ["files written"])

p("C16","Finite-strain plasticity: admissible stress, irreversible history on every path",
  "At every point of every deformation history the return map of the finite-strain J2 model leaves the stress on or inside the hardened yield surface, never decreases the accumulated plastic strain, changes it only when the trial state is outside the yield surface, and keeps the deviatoric elastic state coaxial with its trial while preserving the trial's volumetric part. Committing a step replaces the whole history by the state the stress was computed from, rigid rotations leave it unchanged in the rotated sense, and re-evaluating a committed state without further deformation changes nothing.",
  ["histories","inputs"],"all deformation histories (loading, unloading, reversal, rotation) and all step sizes",
  "Two single-increment samples are tested; no multi-step history is.",
  ["applications/finite_plasticity/model.py"],[("return map","applications/finite_plasticity/model.py:Plasticity.get_maps"),("commit","applications/finite_plasticity/model.py:Plasticity.update_int_vars_gp"),("stress","applications/finite_plasticity/model.py:Plasticity.compute_stress")],
  ["get_maps() functions, update_int_vars_gp, compute_stress"],
  [("F_old, be_bar_old, alpha_old","history variables","applications/finite_plasticity/model.py")])

p("C17","A problem object behaves as a function of what is currently installed in it",
  "After any sequence of solves, residual and tangent evaluations, gradient computations, parameter changes, boundary-condition updates and geometry updates, on this or on other problem objects in the process, the residual, tangent and solution a problem gives are those of a freshly built problem with the same current parameters, conditions and geometry. No operation changes its inputs.",
  ["histories"],"all sequences of public operations over several live problem objects",
  "Tests build one problem, solve it (or step it with one changing value) and throw it away.",
  ["jax_fem/problem.py","jax_fem/solver.py","jax_fem/fe.py"],[("parameters as kernel arguments","jax_fem/problem.py:compute_residual, newton_update"),("geometry","jax_fem/problem.py:initialize_geometric_quantities"),("conditions","jax_fem/fe.py:update_Dirichlet_boundary_conditions"),("matrix cache","jax_fem/solver.py:get_A"),("restored parameters","jax_fem/solver.py:implicit_vjp")],
  ["results of public operations in sequence"],
  [("internal_vars, conditions, geometry, cached tangent","mutable state of a problem","jax_fem/problem.py, jax_fem/solver.py")])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
