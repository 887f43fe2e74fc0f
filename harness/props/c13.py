from femlib import *
from jax_fem import mma as M


def col(v):
    return np.array(v, dtype=float).reshape(-1, 1)


def value(f, x):
    w, t, l = [np.array(f[k], dtype=float) for k in ('w', 't', 'lin')]
    t = t / 4
    return float(np.sum(w * (x - t) ** 2) / 20 + np.sum(l * x) / 10 + f['c'] / 10), (w * (x - t) + l) / 10


def outputs(mm):
    low, upp = mm.getAsymptoteValues()
    x, y, z = mm.getOptimalValues()
    lam, xsi, eta, mu, zet = mm.getLagrangeMultipliers()
    r = lambda v: dec(np.asarray(v).reshape(-1))
    return dict(low=r(low), upp=r(upp), x=r(x), y=r(y), zz=r(z)[0], lam=r(lam), xsi=r(xsi), eta=r(eta), mu=r(mu), zet=r(zet)[0], s=r(mm.getSlackValue()))


class Updates:
    """A history of updates through the public methods of the optimiser."""
    def __init__(self, n, m, xmin, xmax, a0, a, c, d, x):
        mm = self.mm = M.MMA()
        mm.setNumConstraints(m)
        mm.setNumDesignVariables(n)
        mm.setMinandMaxBoundsForDesignVariables(col(xmin), col(xmax))
        mm.setScalingParams(a0, a, c, d)
        self.x, self.old1, self.old2 = x, x.copy(), x.copy()
        mm.setLowerAndUpperAsymptotes(np.ones((n, 1)), np.ones((n, 1)))

    def update(self, move, J, g0, f, G, reset=False):
        mm = self.mm
        mm.setMoveLimit(move)
        if reset:
            mm.resetMMACounter()
        mm.registerMMAIter(self.x.copy(), self.old1.copy(), self.old2.copy())
        mm.setObjectiveWithGradient(np.array(J), col(g0))
        mm.setConstraintWithGradient(col(f), np.array(G, dtype=float))
        mm.mmasub(self.x.copy())
        z = np.sign(self.x - self.old1) * np.sign(self.old1 - self.old2)
        e = dict(x=dec(self.x.reshape(-1)), z=ints(z.reshape(-1)), g0=dec(g0), f=dec(f), G=dec(G), reset=int(reset), out=outputs(mm))
        xn = np.array(mm.getOptimalValues()[0])
        self.old2, self.old1, self.x = self.old1, self.x, xn
        return e


def direct(sc):
    ev = []
    n, m = sc['n'], sc['m']
    lo, hi = np.array(sc['xmin'], float), np.array(sc['xmax'], float)
    x = lo + (hi - lo) * np.array(sc['x0']) / 8
    u = Updates(n, m, lo, hi, float(sc['a0']), col(sc['a']), col([sc['c']] * m), col(sc['d']), col(x))
    for k, mv in enumerate(sc['moves']):
        xv = np.clip(u.x.reshape(-1) + np.array(sc['wobble'][k]) / 100 * (hi - lo), lo, hi)
        if sc['path']:
            xv = lo + (hi - lo) * np.array(sc['path'][k]) / 1000
        u.x = col(xv)
        J, g0 = value(sc['f0'], xv)
        fs = [value(f, xv) for f in sc['fs']]
        e, err = call(u.update, mv / 100, J, g0, [f[0] for f in fs], [f[1] for f in fs], bool(sc['resets'][k]))
        if err:
            raise Observed(ev, err)
        ev.append(dict(op='step', step=k + 1, **e))
    return ev


def driver(sc):
    ev = []
    n, m = sc['n'], sc['m']
    mesh = mesh_of(sc['mesh'], sc['den'])
    class P(Problem):
        def get_tensor_map(self):
            return lambda g: g
    pb = P(mesh, vec=1, dim=len(sc['mesh']['pts'][0]), ele_type=sc['mesh']['et'])
    fe = pb.fes[0]
    fe.flex_inds = np.array(sc['flex'])
    r, err = call(M.compute_filter_kd_tree, fe)
    if err:
        raise Observed(ev, err)
    H, Hs = r
    ft = dict(H=H, Hs=Hs)
    v = sc['vecs']
    rho = col(v['rho']) / 10
    q, err = call(lambda: (M.applyDensityFilter(ft, rho), *M.applySensitivityFilter(ft, rho, col(v['dJ']) / 10, np.array(v['dv'], float)[:, :, None] / 10)))
    if err:
        raise Observed(ev, err)
    Hd, Hv = np.array(H.todense()), np.array(Hs)
    ev.append(dict(op='filter', H=dec(Hd), Hs=dec(Hv), dens=dec(np.asarray(q[0]).reshape(-1)), dJ=dec(np.asarray(q[1]).reshape(-1)),
                   dv=[dec(np.asarray(a).reshape(-1)) for a in q[2]]))

    def funs(x, it):
        J, g = value(sc['f0'], x)
        fs = [value(f, x) for f in sc['fs']]
        k = 1 + sc['drift'] * it / 10
        return J, g, np.array([f[0] * k for f in fs]), np.array([f[1] * k for f in fs])

    for run in range(1 + sc['twice']):
        obj, cons = [], []
        def objective(r):
            obj.append(np.array(r).reshape(-1))
            J, g, _, _ = funs(np.array(r).reshape(-1), 0)
            return J, g.reshape(-1, 1)
        def constraints(r, it):
            cons.append((np.array(r).reshape(-1), int(it)))
            _, _, f, G = funs(np.array(r).reshape(-1), it)
            return f, G[:, :, None]
        rho0 = col(sc['rho0']) / 10
        given = rho0.copy()
        keep = M.density_filtering, M.sensitivity_filtering
        M.density_filtering, M.sensitivity_filtering = bool(sc['dens']), bool(sc['sens'])
        opts = dict(movelimit=sc['move'] / 100, maxIters=sc['iters'])
        try:
            out, err = call(M.optimize, fe, rho0, opts, objective, constraints, m)
        finally:
            M.density_filtering, M.sensitivity_filtering = keep
        if err:
            raise Observed(ev, err)
        ev.append(dict(op='start'))
        # the same history through the update methods, as a witness for the multipliers
        u = Updates(n, m, np.zeros(n), np.ones(n), 1.0, np.zeros((m, 1)), 10000 * np.ones((m, 1)), np.zeros((m, 1)), given.copy())
        for k in range(sc['iters']):
            if k >= len(obj) or k >= len(cons):
                ev.append(dict(op='iter', missing=1))
                break
            x = u.x.reshape(-1)
            phys = Hd @ x / Hv if sc['dens'] else x
            J, g, f, G = funs(phys, k + 1)
            fg, fG = g, G
            if sc['sens']:
                w = x / np.maximum(1e-3, x) / Hv
                fg, fG = Hd @ (w * g), (Hd @ (w[None, :] * G).T).T
            e, err = call(u.update, sc['move'] / 100, J, fg, f, fG)
            if err:
                raise Observed(ev, err)
            ev.append(dict(op='iter', missing=0, it=cons[k][1], obj=dec(obj[k]), cons=dec(cons[k][0]), rawg=dec(g), rawG=dec(G), **e))
        o = np.asarray(out)
        ev.append(dict(op='end', nobj=len(obj), ncons=len(cons), rho=dec(o.reshape(-1)), shape=int(o.shape == given.shape),
                       changed=int(not np.array_equal(rho0, given) or opts != dict(movelimit=sc['move'] / 100, maxIters=sc['iters']))))
    return ev


def run(sc):
    return direct(sc) if sc['kind'] == 'direct' else driver(sc)
