"""Building meshes and problems of the real library from scenarios."""
from common import *
from jax_fem.generate_mesh import Mesh
from jax_fem.problem import Problem
from jax_fem.fe import FiniteElement


def rule_arg(s):
    return None if s == 'none' else s


def mesh_of(rec, den):
    return Mesh(np.array(rec['pts'], dtype=float) / den, np.array(rec['cells'], dtype=np.int32), ele_type=rec['et'])


def order_arg(o):
    return None if o < 0 else o


def pred_fn(p, den):
    """The location function a predicate record stands for."""
    def val(x):
        r = None
        for at in p['atoms']:
            s = sum(float(a) * x[k] for k, a in enumerate(at['a'])) * den
            c = float(at['c'])
            h = jnp.abs(s - c) < 0.25 if at['op'] == 'eq' else (s < c + 0.25 if at['op'] == 'le' else s > c - 0.25)
            r = h if r is None else ((r & h) if p['conn'] == 'and' else (r | h))
        return r
    if p['args'] == 1:
        return lambda point: val(point)
    idx = jnp.array(p['idx'] or [-1], dtype=int)

    def with_index(point, ind):
        h = jnp.any(ind == idx)
        return (val(point) & h) if p['conn'] == 'and' else (val(point) | h)
    return with_index


def bc_info(conds, den, dim):
    """dirichlet_bc_info of a list of condition records (None when there are none)."""
    if not conds:
        return None

    def value(c):
        a, c0 = [float(x) for x in c['val']['a']], float(c['val']['c'])
        return lambda p: sum(a[k] * p[k] for k in range(dim)) + c0 / den
    return [[pred_fn(c['p'], den) for c in conds], [c['vec'] for c in conds], [value(c) for c in conds]]
