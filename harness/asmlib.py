"""The family of quadratic physics of spec/Weak.tla, written against the real library."""
from femlib import *
import jax.flatten_util
from jax_fem import solver as S


PRM0 = dict(pv=0, x1=0, x2=0, x3=0, be=0, ga=0, use=[])


def th1(p, c, q): return 0.25 * (((2 * c + q + p['pv']) % 5) + 1) + p['x1'] * d1(c, q)
def th2(p, c, q): return 0.25 * (((c + 3 * q + 2 * p['pv']) % 7) - 3) + p['x2'] * d2(c, q)
def phi(p, s, c, f, q): return 0.25 * (((3 * c + 5 * f + 2 * q + s + p['pv']) % 7) - 3) + p['x3'] * d3(s, c, f, q)
def d1(c, q): return 0.125 * ((c + 2 * q) % 3)
def d2(c, q): return 0.125 * (((2 * c + q) % 3) - 1)
def d3(s, c, f, q): return 0.125 * (((c + f + q + s) % 3) - 1)


def grids(pb):
    c, q = np.arange(pb.num_cells)[:, None], np.arange(pb.fes[0].num_quads)[None, :]
    qf = np.arange(pb.fes[0].num_face_quads)[None, :]
    return c, q, [(np.asarray(b)[:, :1], np.asarray(b)[:, 1:], qf) for b in pb.boundary_inds_list]


def tree_of(sc, pb, prm):
    """The parameter pytree a parameter record stands for."""
    c, q, fs = grids(pb)
    one = np.zeros((c.shape[0], q.shape[1]))
    t = dict(t1=jnp.array(one + th1(prm, c, q)), t2=jnp.array(one + th2(prm, c, q)), ph=[jnp.array(phi(prm, s, *f)) for s, f in enumerate(fs)])
    if 'beta' in prm['use']:
        t['beta'] = jnp.array(1. + prm['be'] / 4.)
    if 'geo' in prm['use']:
        t['pts'] = [jnp.array((8. * np.array(m['pts']) + prm['ga'] * np.array(g)) / (8. * sc['den'])) for m, g in zip(sc['meshes'], sc['gdir'])]
    return t


def dir_of(sc, pb, prm, k):
    """The direction a parameter tree moves in when one amplitude grows by one unit."""
    c, q, fs = grids(pb)
    z = jax.tree_util.tree_map(jnp.zeros_like, tree_of(sc, pb, prm))
    one = np.zeros((c.shape[0], q.shape[1]))
    if k == 'x1':
        z['t1'] = jnp.array(one + d1(c, q))
    elif k == 'x2':
        z['t2'] = jnp.array(one + d2(c, q))
    elif k == 'x3':
        z['ph'] = [jnp.array(0. * phi(prm, s, *f) + d3(s, *f)) for s, f in enumerate(fs)]
    elif k == 'be':
        z['beta'] = jnp.array(0.25)
    else:
        z['pts'] = [jnp.array(np.array(g) / (8. * sc['den'])) for g in sc['gdir']]
    return z


def nx(k, n): return (k + 1) % n


def make_problem(sc, ms, bcs, extra=None, classes=None):
    """A problem of the family; problems whose physics have the same form are instances of one class."""
    dim, vecs, nv = sc['dim'], sc['vecs'], len(sc['vecs'])
    key = (tuple(sc['mode']), tuple(sc['smode']), sc['wide'], nv, len(sc['sets']))
    cls = None if classes is None or extra else classes.get(key)
    if cls is None:
        cls = make_class(sc['mode'], sc['smode'], sc['wide'], nv, len(sc['sets']), extra)
        if classes is not None and not extra:
            classes[key] = cls
    info = dict(co=[{k: v / 4. for k, v in c.items()} for c in sc['co']], so=[[{k: v / 4. for k, v in c.items()} for c in s] for s in sc['so']], rec=sc)
    fns = [pred_fn(p, sc['den']) for p in sc['sets']] or None
    ets = [m['et'] for m in sc['meshes']]
    o = order_arg(sc['order'])
    rule = rule_arg(sc['rule'])
    if sc['single']:
        return cls(ms[0], vec=vecs[0], dim=dim, ele_type=ets[0], quadrature_rule=rule, quadrature_order=o, dirichlet_bc_info=bcs[0], location_fns=fns, additional_info=(info,))
    return cls(ms, vec=vecs, dim=dim, ele_type=ets, quadrature_rule=[rule] * nv, quadrature_order=[o] * nv, dirichlet_bc_info=bcs, location_fns=fns, additional_info=(info,))


def make_class(mode, smode, wide, nv, nsets, extra=None):

    def flux(c, t1, G, Uj):
        return t1 * c['a'] * G + c['b'] * G * jnp.roll(G, -1, axis=1) + c['g'] * jnp.roll(G, -1, axis=0) + c['h'] * G * Uj

    def src(c, t2, U, x, Gj):
        return c['c'] * U * jnp.roll(U, -1) + c['d'] * x[0] * U + c['e'] * t2 + c['m'] * Gj

    def split(iv):
        return (iv[0][..., 0], iv[0][..., 1]) if wide else iv

    ns = {}
    if 'tensor' in mode:
        def get_tensor_map(self):
            c0 = dict(self.info['co'][0], h=0.)
            return lambda G, *iv: flux(c0, split(iv)[0], G, 0.)
        ns['get_tensor_map'] = get_tensor_map
    if 'mass' in mode:
        def get_mass_map(self):
            c1 = dict(self.info['co'][0], m=0.)
            return lambda U, x, *iv: src(c1, split(iv)[1], U, x, 0.)
        ns['get_mass_map'] = get_mass_map
    if 'universal' in mode:
        def get_universal_kernel(self):
            UC = []
            for c in self.info['co']:
                c = dict(c)
                if 'tensor' in mode:
                    c.update(a=0., b=0., g=0.)
                if 'mass' in mode:
                    c.update(c=0., d=0., e=0.)
                UC.append(c)

            def kernel(cell_sol_flat, x, cell_shape_grads, cell_JxW, cell_v_grads_JxW, *iv):
                t1, t2 = split(iv)
                sols = self.unflatten_fn_dof(cell_sol_flat)
                cs = self.num_nodes_cumsum
                sg = [cell_shape_grads[:, cs[i]:cs[i + 1], :] for i in range(nv)]
                vg = [cell_v_grads_JxW[:, cs[i]:cs[i + 1], :, :] for i in range(nv)]
                G = [jnp.einsum('ak,qal->qkl', sols[i], sg[i]) for i in range(nv)]
                U = [jnp.einsum('ak,qa->qk', sols[i], self.fes[i].shape_vals) for i in range(nv)]
                out = []
                for i in range(nv):
                    j = nx(i, nv)
                    F = jax.vmap(lambda t, g, u: flux(UC[i], t, g, u))(t1, G[i], U[j][:, 0])
                    s = jax.vmap(lambda t, u, xx, g: src(UC[i], t, u, xx, g))(t2, U[i], x, G[j][:, 0, 0])
                    v = jnp.sum(F[:, None, :, :] * vg[i], axis=(0, -1))
                    v = v + jnp.einsum('qk,qa,q->ak', s, self.fes[i].shape_vals, cell_JxW[i])
                    out.append(v)
                return jax.flatten_util.ravel_pytree(out)[0]
            return kernel
        ns['get_universal_kernel'] = get_universal_kernel
    half = 0.5 if len(smode) == 2 else 1.
    if nsets and 'maps' in smode:
        def get_surface_maps(self):
            def mk(c):
                return lambda U, x, p: half * (c['p'] * U * U + c['q'] * x[-1] + p)
            return [mk(self.info['so'][s][0]) for s in range(nsets)]
        ns['get_surface_maps'] = get_surface_maps
    if nsets and 'universal' in smode:
        rest = (1. - half) if len(smode) == 2 else 1.

        def get_universal_kernels_surface(self):
            SO = self.info['so']

            def mk(s):
                def kernel(cell_sol_flat, x, face_shape_vals, face_shape_grads, nanson, p):
                    sols = self.unflatten_fn_dof(cell_sol_flat)
                    cs = self.num_nodes_cumsum
                    N = [face_shape_vals[:, cs[i]:cs[i + 1]] for i in range(nv)]
                    U = [jnp.einsum('ak,qa->qk', sols[i], N[i]) for i in range(nv)]
                    out = []
                    for i in range(nv):
                        c = SO[s][i]
                        val = rest * (c['p'] * U[i] ** 2 + (c['q'] * x[:, -1] + p)[:, None]) + (c['r'] * U[nx(i, nv)][:, 0])[:, None]
                        out.append(jnp.einsum('qk,qa,q->ak', val, N[i], nanson[i]))
                    return jax.flatten_util.ravel_pytree(out)[0]
                return kernel
            return [mk(s) for s in range(nsets)]
        ns['get_universal_kernels_surface'] = get_universal_kernels_surface

    def set_params(self, tree):
        a, b = tree['t1'], tree['t2']
        self.internal_vars = [jnp.stack([a, b], axis=-1)] if wide else [a, b]
        self.internal_vars_surfaces = [[p] for p in tree['ph']]
        if 'beta' in tree:
            for fe, base in zip(self.fes, self.base_vals):
                fe.vals_list = [tree['beta'] * v for v in base]
        if 'pts' in tree:
            self.initialize_geometric_quantities(tree['pts'])

    def note_bc(self):
        self.base_vals = [list(fe.vals_list) for fe in self.fes]

    def custom_init(self, info):
        self.info = info
        note_bc(self)
        set_params(self, tree_of(info['rec'], self, PRM0))
    ns['note_bc'] = note_bc
    ns['custom_init'] = custom_init
    ns['set_params'] = set_params
    ns.update(extra or {})
    return type('Phys', (Problem,), ns)


def tables(pb):
    out = []
    for fe in pb.fes:
        out.append(dict(vals=fx(fe.shape_vals), w=fx(fe.quad_weights), fvals=fx(fe.face_shape_vals), fw=fx(fe.face_quad_weights),
                        fv=ints(np.asarray(fe.face_inds) + 1)))
    return out


def unflat(pb, u):
    return pb.unflatten_fn_sol_list(jnp.array(np.array(u, dtype=float) / 4.))


def flat(x):
    return jax.flatten_util.ravel_pytree(x)[0]


def dense(A):
    indptr, indices, data = A.getValuesCSR()
    import scipy.sparse
    return scipy.sparse.csr_array((data, indices, indptr), shape=A.getSize()).toarray()


class Stop(Exception):
    pass


def pmat(rows):
    """The multipoint constraint matrix (or None)."""
    if not rows:
        return None
    import scipy.sparse
    I = [i for i, r in enumerate(rows) for _ in r]
    J = [j - 1 for r in rows for j, _ in r]
    V = [v / 4. for r in rows for _, v in r]
    return scipy.sparse.csr_array((np.array(V), (np.array(I), np.array(J))), shape=(len(rows), max(J) + 1))


def lift(pb, x):
    """The full solution list of a (reduced) state."""
    x = np.asarray(x, dtype=float)
    if hasattr(pb, 'P_mat'):
        x = pb.P_mat @ x
    return pb.unflatten_fn_sol_list(jnp.array(x))


def fl(x):
    """Floating number as [six-digit mantissa, exponent]."""
    x = float(x)
    if not np.isfinite(x):
        return [-1, 0]
    if x <= 0:
        return [0, 0]
    m, e = f'{x:.5e}'.split('e')
    return [int(m.replace('.', '')), int(e) - 5]


def constrained(pb, sol):
    r = S.apply_bc(S.get_flatten_fn(pb.compute_residual, pb), pb)(flat(sol))
    return pb.P_mat.T @ np.array(r) if hasattr(pb, 'P_mat') else np.array(r)


def capture(pb, u):
    """The system Newton's method hands to its linear solver at state u, through the public option."""
    box = {}

    def grab(A, b, x0, opts):
        box.update(A=dense(A), b=np.array(b))
        raise Stop
    try:
        S.solver(pb, {'newton': {'initial_guess': lift(pb, np.array(u) / 4.), 'tol': 0., 'rel_tol': 0., 'linear': {'custom_solver': grab}}})
    except Stop:
        pass
    return box
