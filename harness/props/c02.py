from femlib import *


class Geo(Problem):
    def get_tensor_map(self):
        return lambda g: g

    def get_surface_maps(self):
        return [lambda u, x: u]


def sample(n):
    return sorted({int(round(i * (n - 1) / 4)) for i in range(5)}) if n > 5 else range(n)


def snap(op, sc, pb):
    fe = pb.fes[0]
    sol = jnp.array(np.array(sc['sol'], dtype=float))
    bi = np.asarray(pb.boundary_inds_list[0])
    u, gu, fu = fe.convert_from_dof_to_quad(sol), fe.sol_to_grad(sol), fe.convert_from_dof_to_face_quad(sol, pb.boundary_inds_list[0])
    cells = []
    for c in sc['scells']:
        qs = []
        for q in sample(fe.num_quads):
            qs.append(dict(N=fx(fe.shape_vals[q]), w=fx(fe.quad_weights[q]), grads=fx(pb.shape_grads[c, q]), jxw=fx(pb.JxW[c, 0, q]),
                           x=fx(pb.physical_quad_points[c, q]), u=fx(u[c, q]), gu=fx(gu[c, q]), vg=fx(pb.v_grads_JxW[c, q, :, 0, :])))
        cells.append(qs)
    faces = []
    for c, f in sc['sfaces']:
        hit = np.argwhere((bi[:, 0] == c) & (bi[:, 1] == f)).reshape(-1)
        if len(hit) != 1:
            faces.append(dict(cell=-1, face=-1, fv=[], qs=[]))
            continue
        h = int(hit[0])
        qs = [dict(N=fx(pb.selected_face_shape_vals[0][h, q]), w=fx(fe.face_quad_weights[f, q]), ds=fx(pb.nanson_scale[0][h, 0, q]),
                   grads=fx(pb.selected_face_shape_grads[0][h, q]), x=fx(pb.physical_surface_quad_points[0][h, q]), u=fx(fu[h, q]))
              for q in sample(fe.num_face_quads)]
        faces.append(dict(cell=c, face=f, fv=ints(np.asarray(fe.face_inds)[f] + 1), qs=qs))
    return dict(op=op, cells=cells, faces=faces, vol=fx(jnp.sum(fe.JxW)))


def run(sc):
    mesh = mesh_of(sc['mesh'], sc['den'])
    pb, e = call(Geo, mesh, vec=sc['vec'], dim=len(sc['n']), ele_type=sc['et'], quadrature_rule=rule_arg(sc['rule']),
                 quadrature_order=order_arg(sc['order']), location_fns=[lambda p: True])
    if e:
        raise Observed([], e)
    ev = [snap('geom', sc, pb)]
    _, e = call(pb.initialize_geometric_quantities, [jnp.array(np.array(sc['moved'], dtype=float) / sc['mden'])])
    if e:
        raise Observed(ev, e)
    ev.append(snap('moved', sc, pb))
    _, e = call(pb.initialize_geometric_quantities)
    if e:
        raise Observed(ev, e)
    ev.append(snap('again', sc, pb))
    return ev
