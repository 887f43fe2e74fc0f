import basix
from common import *
from jax_fem import basis


def rule_arg(s):
    if s == 'none':
        return None
    if s.startswith('enum:'):
        return getattr(basix.QuadratureType, s[5:])
    return s


def run(sc):
    order = None if sc['order'] < 0 else sc['order']
    ev = []
    kw = dict(quadrature_rule=rule_arg(sc['spell']), quadrature_order=order)
    r, e = call(basis.get_shape_vals_and_grads, sc['et'], **kw)
    if e is None:
        ev.append(dict(op='cell', vals=fx(r[0]), grads=fx(r[1]), w=fx(r[2])))
    else:
        ev.append(dict(op='cell_rejected', err=e))
    r, e = call(basis.get_face_shape_vals_and_grads, sc['et'], **kw)
    if e is None:
        ev.append(dict(op='face', fvals=fx(r[0]), fgrads=fx(r[1]), fw=fx(r[2]), fn=fx(r[3]), fv=ints(np.asarray(r[4]) + 1)))
    else:
        ev.append(dict(op='face_rejected', err=e))
    return ev
