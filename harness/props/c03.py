from femlib import *


class P(Problem):
    def get_tensor_map(self):
        return lambda g: g

    def get_surface_maps(self):
        return [lambda u, x: u for _ in range(len(self.boundary_inds_list))]


def run(sc):
    mesh = mesh_of(sc['mesh'], sc['den'])
    fns = [pred_fn(p, sc['den']) for p in sc['preds']]
    ev = []
    fe = FiniteElement(mesh, vec=2, dim=len(sc['n']), ele_type=sc['et'])
    r, e = call(fe.get_boundary_conditions_inds, fns or None)
    if e:
        raise Observed(ev, e)
    fv = ints(np.asarray(fe.face_inds) + 1)
    ev.append(dict(op='select', fv=fv, sets=[ints(b) for b in r]))
    for k, p in enumerate(sc['preds']):
        if p['args'] == 1:
            c, e = call(mesh.count_selected_faces, fns[k])
            if e:
                raise Observed(ev, e)
            ev.append(dict(op='count', k=k + 1, count=int(c)))
    if len(fns) in (2, 5):                  # and as a problem of several variables selects them
        m2 = mesh_of(sc['mesh'], sc['den'])
        class Q(P):
            pass
        del_map = type('Q', (Problem,), dict(get_surface_maps=P.get_surface_maps))
        pb, e = call(del_map, [mesh, m2], vec=[1, 2], dim=len(sc['n']), ele_type=[sc['et']] * 2, location_fns=fns)
        if e:
            raise Observed(ev, e)
        ev.append(dict(op='select', fv=fv, sets=[ints(b) for b in pb.boundary_inds_list]))
    return ev
