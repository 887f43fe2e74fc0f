from femlib import *
from jax_fem import solver as S


class P(Problem):
    def get_tensor_map(self):
        return lambda g: g


def run(sc):
    den, dim = sc['den'], sc['dim']
    ms = [mesh_of(m, den) for m in sc['meshes']]
    bcs = [bc_info(c, den, dim) for c in sc['bcs']]
    ets = [m['et'] for m in sc['meshes']]
    if sc['single']:
        pb, e = call(P, ms[0], vec=sc['vecs'][0], dim=dim, ele_type=ets[0], dirichlet_bc_info=bcs[0])
    else:
        pb, e = call(P, ms, vec=sc['vecs'], dim=dim, ele_type=ets, quadrature_order=[2] * len(ms), dirichlet_bc_info=bcs)
    ev = []
    if e:
        raise Observed(ev, e)
    for o in sc['ops']:
        if o['op'] == 'update':
            fe = pb.fes[o['v']]
            _, e = call(fe.update_Dirichlet_boundary_conditions, bc_info(o['conds'], den, dim))
            if e:
                raise Observed(ev, e)
            ev.append(dict(op='update'))
            continue
        u = jnp.array(np.array(o['u'], dtype=float) / den)
        r = jnp.array(np.array(o['r'], dtype=float) / den)
        u0, r0 = np.array(u), np.array(r)
        if o['op'] == 'apply':
            out, e = call(S.apply_bc_vec, r, u, pb, float(o['scale']))
        elif o['op'] == 'applyfn':
            out, e = call(S.apply_bc(lambda d: r, pb, float(o['scale'])), u)
        else:
            fn = dict(assign=S.assign_bc, ones=S.assign_ones_bc, zeros=S.assign_zeros_bc, copy=S.copy_bc)[o['op']]
            out, e = call(fn, u, pb)
        if e:
            raise Observed(ev, e)
        ev.append(dict(op=o['op'], out=fx(out), same=bool(np.array_equal(u0, u) and np.array_equal(r0, r))))
    return ev
