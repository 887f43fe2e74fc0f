"""Linear systems handed to the backends (spec/LinTrace.tla)."""
import copy
from common import *
from jax_fem.solver import linear_solver
from petsc4py import PETSc
import scipy.sparse


def options(o, fn=None):
    """The option dictionary of an abstract linear option."""
    k, a = o['kind'], o['args']
    if k == 'default':
        return {}
    if k == 'jax':
        return {'jax_solver': {'precond': o['pre']} if 'pre' in a else {}}
    if k == 'petsc':
        d = {}
        if 'ksp' in a:
            d['ksp_type'] = o['ksp']
        if 'pc' in a:
            d['pc_type'] = o['pc']
        return {'petsc_solver': d}
    if k == 'amgx':
        return {'amgx_solver': {'cfg_path': '/nonexistent.json'} if 'cfg' in a else {}}
    if k == 'custom':
        return {'custom_solver': fn}
    return {'spsolve_solver': {}}


def frozen(o):
    return {k: frozen(v) for k, v in o.items()} if isinstance(o, dict) else o


def petsc_matrix(rows):
    M = scipy.sparse.csr_matrix(np.array(rows, dtype=float))
    return PETSc.Mat().createAIJ(size=M.shape, csr=(M.indptr.astype(np.int32), M.indices.astype(np.int32), M.data))


def content(A):
    return [np.array(x) for x in A.getValuesCSR()]


def run(sc):
    ev = []
    dense = np.array(sc['A'], dtype=float)
    n = len(sc['b'])
    A = petsc_matrix(sc['A'])
    s = 10. ** -sc['e']
    b = jnp.array(np.array(sc['b'], dtype=float) * s)
    exact = np.array(sc['xs'], dtype=float) * s
    x0 = dict(none=None, zero=jnp.zeros(n), some=jnp.array(np.array(sc['g']) * s), exact=jnp.array(exact))[sc['x0']]
    calls = []

    def custom(A_, b_, x0_, opts_):
        calls.append(A_ is A and np.array_equal(b_, b) and (x0_ is x0 or np.array_equal(x0_, x0)) and opts_.get('custom_solver') is custom)
        return jnp.array(np.linalg.solve(dense, np.array(b_))) if sc['kind'] != 'singular' else jnp.array(np.linalg.lstsq(dense, np.array(b_), rcond=None)[0] * np.nan)
    opts = options(sc['opt'], custom)
    want, before = frozen(opts), [content(A), np.array(b), None if x0 is None else np.array(x0)]
    for _ in range(2 if sc['again'] else 1):
        calls.clear()
        x, e = call(linear_solver, A, b, x0, opts)
        args = all(np.array_equal(p, q) for p, q in zip(before[0], content(A))) and np.array_equal(before[1], b) and (x0 is None or np.array_equal(before[2], x0))
        rec = dict(opts=opts == want, args=bool(args), calls=len(calls), passed=all(calls))
        ev.append(dict(op='raised', text=e, **rec) if e else dict(op='solved', x=dec(np.asarray(x).reshape(-1)) if np.ndim(x) == 1 else [], **rec))
    return ev
