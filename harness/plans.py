"""Which specification modules and drivers decide which property."""


def part(name, gen, trace, driver, **kw):
    return dict(name=name, gen=gen, trace=trace, driver=driver, **kw)


INV = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
PLANS = {}

PLANS['C01'] = dict(
    models=[dict(module='BasisMC', cfg=INV + 'INVARIANTS BasisInv TopoInv RuleInv\n', what='nodal bases, facets and rules of the specification')],
    parts=[part('tables', 'BasisGen', 'BasisTrace', 'C01')],
    assumptions=['tables compared to six decimals', 'exactness checked on monomials up to degree 4 and pure powers up to the requested order'])

NOT_APPLICABLE = {}

PLANS['C02'] = dict(
    parts=[part('geometry', 'GeoGen', 'GeoTrace', 'C02')],
    assumptions=['six-decimal fixed-point comparison with a relative tolerance of 2e-4', 'up to five quadrature points per sampled cell and facet'])

PLANS['C03'] = dict(
    models=[dict(module='FaceSelMC', cfg=INV + 'INVARIANTS Exact Matched VertsOnly TableInv\n', workers=4, what='selection loop over every truth assignment of two-cell meshes')],
    parts=[part('selection', 'FaceSelGen', 'FaceSelTrace', 'C03')],
    assumptions=['predicates are half-space combinations and index lists, as integers, evaluated away from their boundaries'])

PLANS['C04'] = dict(
    models=[dict(module='DirichletMC', cfg=INV + 'INVARIANTS ResidualRule AssignRule\n', workers=4, what='every list of up to two conditions on three nodes, with replacement')],
    parts=[part('conditions', 'DirichletGen', 'DirichletTrace', 'C04')],
    assumptions=['value functions are affine with small integer coefficients, so the comparison is exact'])

QUAD = 'fixed-point comparison (tolerance 4e-4 absolute, 5e-4 relative); physics quadratic in the state, small integer data'
PLANS['C05'] = dict(
    models=[dict(module='BatchMC', cfg='CONSTANT MaxCells = 130\n' + INV + 'INVARIANTS InOrder Complete NonEmpty\n', what='the grouping of cells, 1 to 130 cells')],
    parts=[part('assembly', 'AsmGen', 'Session', 'session', env=dict(WHICH='C05'))],
    assumptions=[QUAD])
PLANS['C06'] = dict(
    parts=[part('tangent', 'AsmGen', 'Session', 'session', env=dict(WHICH='C06'))],
    assumptions=[QUAD])
N7 = 'INVARIANTS ReturnsConverged RaisesOnlyNonfinite NeverAfterConvergence StepsOnlyIfNeeded LengthRule\n'
PLANS['C07'] = dict(
    models=[dict(module='NewtonMC', cfg={'quick': 'CONSTANTS Steps = 2\nLevels = 3\n' + INV + N7, 'thorough': 'CONSTANTS Steps = 4\nLevels = 4\n' + INV + N7}, workers=4,
                 what='the loops and assertions of the solver against the declarative rules, for every sequence of residual norms')],
    parts=[part('newton', 'NewtonGen', 'Session', 'session')],
    assumptions=[QUAD, 'decisions within a relative 1e-4 of a threshold (1e-3 for the line search) may go either way'])
PLANS['C09'] = dict(
    models=[dict(module='AdjMC', cfg={'quick': 'CONSTANT MaxOps = 5\n' + INV + 'INVARIANTS Own Concrete\n', 'thorough': 'CONSTANT MaxOps = 7\n' + INV + 'INVARIANTS Own Concrete\n'}, workers=4,
                 what='every interleaving of forward, backward, install and evaluate on one problem object')],
    parts=[part('gradients', 'AdjGen', 'Session', 'session')],
    assumptions=[QUAD, 'derivative witnesses are checked against the tangent of the specification before they are used'])
PLANS['C10'] = dict(
    models=[dict(module='MpcMC', cfg={'quick': 'CONSTANT N = 5\n' + INV + 'INVARIANTS Exactly Columns Reduced\n', 'thorough': 'CONSTANT N = 7\n' + INV + 'INVARIANTS Exactly Columns Reduced\n'}, workers=4,
                 what='the numbering of tying matrices and the reduced equations, for every set of unchained ties')],
    parts=[part('constraints', 'MPCGen', 'Session', 'session')],
    assumptions=[QUAD, 'constraint matrices have quarter entries and full column rank'])
PLANS['C17'] = dict(
    models=[dict(module='LifeMC', cfg={'quick': 'CONSTANT MaxOps = 6\n' + INV + 'INVARIANTS Function GeometryCurrent RowsOfSource\n', 'thorough': 'CONSTANT MaxOps = 9\n' + INV + 'INVARIANTS Function GeometryCurrent RowsOfSource\n'}, workers=4,
                 what='every history of operations on two problem objects with caches and shared conditions')],
    parts=[part('lives', 'LifeGen', 'Session', 'session')],
    assumptions=[QUAD])
PLANS['C14'] = dict(
    models=[dict(module='TilingMC', cfg=INV + 'INVARIANTS Accepts Rejects\n', workers=4, what='the tiling conditions accept every built mesh and reject every single-fault mutation')],
    parts=[part('meshes', 'MeshGen', 'MeshTrace', 'C14')],
    assumptions=['side lengths are multiples of a lattice unit; coordinates compared to a thousandth of it', 'cylinder coordinates compared to 3e-4 of the radius'])
PLANS['C15'] = dict(
    models=[dict(module='SavedMC', cfg={'quick': 'CONSTANT MaxOps = 2\n' + INV + 'INVARIANTS Latest Justified Distinct Rounding\n', 'thorough': 'CONSTANT MaxOps = 3\n' + INV + 'INVARIANTS Latest Justified Distinct Rounding\n'}, workers=4, what='every history of accepted and rejected saves to two files')],
    parts=[part('files', 'SavedGen', 'SavedTrace', 'C15')],
    assumptions=['files are read back with meshio', 'values are eighths, within and beyond single precision'])
PLANS['C13'] = dict(
    models=[dict(module='DecMC', cfg=INV + 'INVARIANTS Mul2 Add2 Div2 Ord Root\n', what='decimal arithmetic of the specification against exact rationals')],
    parts=[part('updates', 'MmaGen', 'MmaTrace', 'C13')],
    assumptions=['numbers compared to about six significant digits', 'multipliers of a driver run are witnessed by the same history through the public update methods'])
PLANS['C08'] = dict(
    parts=[part('backends', 'LinGen', 'LinTrace', 'linear'), part('options', 'OptGen', 'Session', 'session', elsewhere=['predictor_uncorrected'])],
    assumptions=['matrices of small integers; residuals and errors in eight-digit decimal arithmetic', 'recording stand-ins around the linear solvers of SciPy, JAX and PETSc tell which backend ran'])
A11 = 'INVARIANTS Onwards Numbered StopsAtFirst Within PolishedIffReached ShortIffExhausted SwitchRule\n'
PLANS['C11'] = dict(
    models=[dict(module='ArcMC', cfg={'quick': 'CONSTANT MaxLen = 4\n' + INV + A11, 'thorough': 'CONSTANT MaxLen = 6\n' + INV + A11}, workers=4,
                 what='root choice, corrector passes and the outer loop along every polygonal path')],
    parts=[part('paths', 'ArcGen', 'Session', 'session')],
    assumptions=[QUAD, 'paths of up to twenty steps in eight-digit decimal arithmetic'])
PLANS['C12'] = dict(
    parts=[part('relaxation', 'RelaxGen', 'Session', 'session')],
    assumptions=[QUAD])

PLANS['C16'] = dict(
    models=[dict(module='PlastMC', cfg=dict(quick='CONSTANT Depth = 2\n' + INV + 'INVARIANTS InvStep InvFrame InvRigid InvDilation\n', thorough='CONSTANT Depth = 4\n' + INV + 'INVARIANTS InvStep InvFrame InvRigid InvDilation\n'),
                 workers=4, what='all deformation histories over eight increments: admissible, irreversible, radial, volume-preserving, frame-indifferent, idempotent')],
    parts=[part('histories', 'PlastGen', 'PlastTrace', 'C16')],
    assumptions=['thirteen-digit decimal arithmetic; the deformation gradient of a non-affine displacement is the one the finite element computes', 'steps at which Newton does not converge within 25 iterations are not judged'])
