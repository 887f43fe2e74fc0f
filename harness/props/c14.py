import shutil, tempfile
from femlib import *
from jax_fem import generate_mesh as gm

os.environ['PATH'] += os.pathsep + os.path.dirname(sys.executable)     # the gmsh command of the environment


@contextlib.contextmanager
def silent():
    """gmsh and its command line write to file descriptor 1."""
    sys.stdout.flush()
    keep = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        yield
    finally:
        sys.stdout.flush()
        os.dup2(keep, 1)
        os.close(keep)
        os.close(null)


def event(m, e, unit):
    if e:
        return e
    b = m.cells[0]
    return dict(op='mesh', cell_type=b.type, blocks=len(m.cells), pts=fx(np.asarray(m.points) / np.array(unit), 1), cells=ints(b.data))


def run(sc):
    ev = []
    d = tempfile.mkdtemp(prefix='verif-c14-')
    try:
        for c in sc['calls']:
            k = c['kind']
            if k == 'names':
                ev.append(dict(op='names', names=[gm.get_meshio_cell_type(t) for t in c['ets']]))
                continue
            if k == 'tetcheck':
                q, e = call(gm.check_mesh_TET4, jnp.array(c['pts'], dtype=float), jnp.array(c['cells']))
                if e:
                    raise Observed(ev, e)
                ev.append(dict(op='tetcheck', q=fx(q, 1000)))
                continue
            if k == 'cylinder':
                R, H = float(c['r']), float(c['hh'])
                with silent():
                    m, e = call(gm.cylinder_mesh_gmsh, d, R=R, H=H, circle_mesh=c['q'] + 1, hight_mesh=c['m'], rect_ratio=c['rho'] / 10000)
                unit = [R / 10000, R / 10000, H / 10000]
            else:
                u = float(c['u'])
                L = [n * h * u for n, h in zip(c['n'], c['h'])]
                unit = [u / 1000] * len(L)
                if k == 'rectangle':
                    m, e = call(gm.rectangle_mesh, *c['n'], *L)
                elif k == 'box':
                    m, e = call(gm.box_mesh, *c['n'], *L)
                else:
                    with silent():
                        m, e = call(gm.box_mesh_gmsh, *c['n'], *L, d, ele_type=c['et'])
            if e:
                raise Observed(ev, e)
            ev.append(event(m, None, unit))
        return ev
    finally:
        shutil.rmtree(d, ignore_errors=True)
