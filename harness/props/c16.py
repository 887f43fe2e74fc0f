"""C16: histories of the finite-strain J2 model, through the problem's public methods."""
from asmlib import *
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
from applications.finite_plasticity.model import Plasticity


def wide(x):
    """Numbers of Wide.tla: sign, exponent and four limbs of four digits, element-wise over nested lists."""
    a = np.asarray(x, dtype=float)
    if a.ndim:
        return [wide(v) for v in a]
    v = float(a)
    if not math.isfinite(v):
        return [2, 0, 0, 0, 0, 0]
    if v == 0.:
        return [0, 0, 0, 0, 0, 0]
    m, e = f'{abs(v):.15e}'.split('e')
    m, e = int(m.replace('.', '')), int(e)
    k, r = e // 4, e % 4
    n = m * 10 ** r // 1000
    return [1 if v > 0 else -1, k, n // 10 ** 12, n // 10 ** 8 % 10000, n // 10 ** 4 % 10000, n % 10000]


class Budget(Exception):
    pass


def rotation(q):
    a, b, c, d = [float(x) for x in q]
    R = np.array([[a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c)], [2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b)], [2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d]])
    return R / (a*a + b*b + c*c + d*d)


def make(sc, bcs=None):
    return Plasticity(mesh_of(sc['mesh'], sc['den']), vec=3, dim=3, ele_type=sc['mesh']['et'], quadrature_order=order_arg(sc['order']), dirichlet_bc_info=bcs)


def at_of(look, hist, **more):
    F, be, al = [np.asarray(h) for h in hist]
    more = {k: np.asarray(v) for k, v in more.items()}
    out = []
    for c, q in look:
        i, j = c % al.shape[0], q % al.shape[1]
        out.append(dict(F=wide(F[i, j]), be=wide(be[i, j]), al=wide(al[i, j]), **{k: wide(v[i, j]) for k, v in more.items()}))
    return out


def copied(hist):
    return [np.array(h) for h in hist]


def same(hist, kept):
    return all(np.array_equal(np.asarray(a), b) for a, b in zip(hist, kept))


def moved(pb, sc, o, sol, commit, settled=True):
    u, old = jnp.array(sol), pb.internal_vars
    own = copied(old)
    if o['op'] == 'branch':          # another history than the one the problem holds
        old = [jnp.array(np.broadcast_to(np.eye(3), own[0].shape)), jnp.array(np.broadcast_to(np.eye(3), own[1].shape)), jnp.zeros(own[2].shape)]
    kept = copied(old)
    X = np.asarray(pb.fes[0].mesh.points if hasattr(pb.fes[0], 'mesh') else pb.fes[0].points)
    sig = pb.compute_stress(u, old)
    forces = np.asarray(pb.compute_residual([u])[0])
    new = pb.update_int_vars_gp(u, old)
    sol_same = np.array_equal(np.asarray(u), sol) and same(old, kept) and same(pb.internal_vars, own)
    sig2 = pb.compute_stress(u, new)
    F = np.eye(3) + np.asarray(pb.fes[0].sol_to_grad(u))
    shapes = len(new) == 3 and all(np.shape(a) == b.shape for a, b in zip(new, kept)) and np.shape(sig) == kept[0].shape
    gps = []
    w = np.asarray(pb.JxW)[:, 0] if np.ndim(pb.JxW) == 3 else np.asarray(pb.JxW)
    if F.shape[0] * F.shape[1] <= 16:
        gps = [dict(F=wide(F[c, q]), sig=wide(np.asarray(sig)[c, q]), w=wide(w[c, q])) for c in range(F.shape[0]) for q in range(F.shape[1])]
    e = dict(op='moved', at=at_of(sc['look'], new, F0=F, sig=sig, sig2=sig2), shapes=bool(shapes), kept=bool(sol_same), settled=bool(settled), gps=gps,
             power=wide(float(np.sum(forces * (X @ np.array(o['V'], dtype=float).T)))))
    if commit:
        pb.internal_vars = new
    return e


def grips(sc, o, pts):
    ax, (b, c) = o['ax'] - 1, [k for k in range(3) if k != o['ax'] - 1]
    lo, hi = pts.min(0), pts.max(0)
    d = o['A'][0][0] / 1000. * (hi[ax] - lo[ax])
    t = o['side'] / 1000. * (hi[ax] - lo[ax])

    def on(k, v):
        return lambda p: jnp.abs(p[k] - v) < 1e-6
    zero, go, sway = (lambda p: 0.), (lambda p: d), (lambda p: t)
    if o['hold'] == 'slide':
        return [[on(ax, lo[ax]), on(ax, hi[ax]), on(b, lo[b]), on(c, lo[c])], [ax, ax, b, c], [zero, go, zero, zero]]
    return [[on(ax, lo[ax])] * 3 + [on(ax, hi[ax])] * 3, [0, 1, 2, ax, b, c], [zero] * 3 + [go, sway, zero]]


def solve(pb, sc, o, sol):
    info = grips(sc, o, np.array(sc['mesh']['pts'], dtype=float) / sc['den'])
    pb.fes[0].update_Dirichlet_boundary_conditions(info)
    n = [0]

    def direct(A, b, x0, opts):
        n[0] += 1
        if n[0] > 25:
            raise Budget
        return jnp.array(np.linalg.solve(dense(A), np.array(b)))
    try:
        new = S.solver(pb, {'newton': {'initial_guess': [jnp.array(sol)], 'linear': {'custom_solver': direct}, 'tol': 1e-6, 'rel_tol': 1e-12}})
    except (Budget, np.linalg.LinAlgError, AssertionError):
        return None, False
    return np.array(new[0]), bool(np.linalg.norm(constrained(pb, new)) <= 1.0001e-6)


def run(sc):
    ev = []
    ops = sc['ops']
    first = next((o for o in ops if o['op'] == 'solve'), None)
    pts = np.array(sc['mesh']['pts'], dtype=float) / sc['den']
    pb = make(sc, grips(sc, first, pts) if first else None)
    ev.append(dict(op='state', at=at_of(sc['look'], pb.internal_vars)))
    sol = np.zeros((len(pts), 3))
    for o in ops:
        if o['op'] == 'flat':
            from jax_fem.generate_mesh import rectangle_mesh
            m2 = rectangle_mesh(1, 1, 1., 1.)
            _, err = call(lambda: Plasticity(Mesh(m2.points, m2.cells_dict['quad'], ele_type='QUAD4'), vec=2, dim=2, ele_type='QUAD4'))
            ev.append(dict(op='flat', rejected=bool(err)))
        elif o['op'] == 'fresh':
            other = make(sc)
            ev.append(dict(op='fresh', at=at_of(sc['look'], other.internal_vars), own=at_of(sc['look'], pb.internal_vars)))
        elif o['op'] == 'again':
            ev.append(moved(pb, sc, o, sol, True))
        elif o['op'] == 'solve':
            new, ok = solve(pb, sc, o, sol)
            if new is None:
                ev.append(dict(op='unsolved'))
                continue
            sol = new
            ev.append(moved(pb, sc, o, sol, True, ok))
        else:
            F = rotation(o['q']) @ (np.eye(3) + np.array(o['A']) / float(sc['unit']))
            u = pts @ (F - np.eye(3)).T
            if o['pert']:
                u = u + np.array(o['pert']).reshape(-1, 3) / 2000. * (pts.max() - pts.min())
            ev.append(moved(pb, sc, o, u, o['op'] == 'commit'))
            if o['op'] == 'commit':
                sol = u
    return ev
