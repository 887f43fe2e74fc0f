import json, shutil, tempfile, time
import meshio
from femlib import *
from jax_fem import utils

ABAQUS = dict(TRI3='CPS3', QUAD4='CPS4', QUAD8='S8R', TRI6='CPE6', TET4='C3D4', TET10='C3D10', HEX8='C3D8')
SCALE = dict(tiny=2. ** -110, huge=2. ** 90)


def data_of(f):
    n = len(f['rows'])
    a = np.array(f['rows'], dtype=float).reshape([n] + list(f['tail'])) / 8 * SCALE.get(f['name'], 1.)
    if f['dt'] == 'f4':
        a = a.astype(np.float32)
    elif f['dt'] == 'i4' and f['name'] not in SCALE:
        a = a.astype(np.int32)
    return jnp.array(a) if f['dt'] == 'jax' else a


def rows(a, name=''):
    a = np.asarray(a)
    return fx(a.reshape(len(a), -1).astype(float) / SCALE.get(name, 1.), 8)


def snap(fe, arrs):
    return [np.array(x) for x in [fe.points, fe.cells] + arrs]


def write_inp(path, m, den):
    et = m['et']
    with open(path, 'w') as f:
        f.write('*HEADING\ntest\n*NODE\n')
        for j, p in enumerate(m['pts']):
            p3 = list(p) + [0] * (3 - len(p))
            f.write(f'{j + 1}, ' + ', '.join(repr(x / den) for x in p3) + '\n')
        f.write(f'*ELEMENT, TYPE={ABAQUS[et]}, ELSET=EALL\n')
        for c, cell in enumerate(m['cells']):
            f.write(f'{c + 1}, ' + ', '.join(str(x + 1) for x in cell) + '\n')


def run(sc):
    ev = []
    den = sc['den']
    fes = [FiniteElement(mesh_of(m, den), vec=1, dim=len(m['pts'][0]), ele_type=m['et']) for m in sc['meshes']]
    d = tempfile.mkdtemp(prefix='verif-c15-')
    cwd = os.getcwd()
    os.chdir(d)
    try:
        for i, c in enumerate(sc['calls']):
            op = c['op']
            if op == 'save':
                fe = fes[c['mesh'] - 1]
                sol = data_of(c['sol'])
                ps = [(f['name'], data_of(f)) for f in c['pfields']]
                cs = [(f['name'], data_of(f)) for f in c['cfields']]
                arrs = [sol] + [a for _, a in ps + cs]
                before, names = snap(fe, arrs), [list(ps), list(cs)]
                path = f"{c['file']}.{c['ext']}"
                if c['nolists'] or '/' in path:       # an absolute path; otherwise a bare file name
                    path = os.path.join(d, path)
                _, e = call(utils.save_sol, fe, sol, path, cs if cs or c['nolists'] else None, ps if ps or c['nolists'] else None)
                after = snap(fe, arrs)
                same = all(np.array_equal(x, y) and x.dtype == y.dtype for x, y in zip(before, after)) and \
                    all(len(x) == len(y) and all(p is q for p, q in zip(x, y)) for x, y in zip(names, [ps, cs]))
                ev.append(dict(op='save', rejected=int(bool(e)), changed=int(not same), text=e or ''))
            elif op == 'read':
                path = os.path.join(d, f"{c['file']}.{c['ext']}")
                if not os.path.exists(path):
                    ev.append(dict(op='read', absent=1))
                    continue
                r, e = call(meshio.read, path)
                if e:
                    raise Observed(ev, 'unreadable: ' + e)
                if len(r.cells) != 1:
                    raise Observed(ev, f'{len(r.cells)} cell blocks')
                ev.append(dict(op='read', absent=0, pts=fx(r.points, den), cell_type=r.cells[0].type, cells=ints(r.cells[0].data),
                               pdata=[dict(name=k, rows=rows(v, k)) for k, v in r.point_data.items()],
                               cdata=[dict(name=k, rows=rows(v[0], k)) for k, v in r.cell_data.items()]))
            elif op == 'modify':
                tok = {'old': '<VTKFile type="UnstructuredGrid" version="2.2">', 'new': '<VTKFile type="UnstructuredGrid" version="1.0">',
                       'nl': '\n', 'poly': '<VTKFile type="PolyData" version="2.2">', 'tab': '\t '}
                text = ''.join(tok.get(t, t) for t in c['toks'])
                src, dst = f'm{i}.vtu', f'm{i}.vtu' if c['same'] else f'n{i}.vtu'
                with open(src, 'w') as f:
                    f.write(text)
                _, e = call(utils.modify_vtu_file, src, dst)
                if e:
                    raise Observed(ev, e)
                ev.append(dict(op='modify', out=open(dst).read(), inp=open(src).read()))
            elif op == 'abaqus':
                m = sc['meshes'][c['mesh'] - 1]
                src, dst = f'q{i}.inp', f'q{i}.{c["ext"]}'
                write_inp(src, m, den)
                text = open(src).read()
                _, e = call(utils.read_abaqus_and_write_vtk, src, dst)
                if e:
                    raise Observed(ev, e)
                r = meshio.read(dst)
                ev.append(dict(op='abaqus', kept=int(open(src).read() == text), pts=fx(r.points, den), cell_type=r.cells[0].type, cells=ints(r.cells[0].data)))
            elif op == 'json':
                with open(f'j{i}.json', 'w') as f:
                    json.dump(c['data'], f)
                with contextlib.redirect_stdout(io.StringIO()):
                    r, e = call(utils.json_parse, f'j{i}.json')
                if e:
                    raise Observed(ev, e)
                ev.append(dict(op='json', data=r))
            elif op == 'timed':
                seen, token = [], object()
                def body(a, b, kw=None):
                    seen.append([a, b, kw])
                    time.sleep(0.02)
                    if c['raises']:
                        raise KeyError('inner')
                    return token
                td = os.path.join(d, f't{i}', 'deep')
                if c['wrap'] == 'timeit':
                    w = utils.timeit(body)
                else:
                    w = utils.walltime(td if c['txt'] else None, c['fname'] or None)(body)
                res = 'none'
                for _ in range(c['times']):
                    try:
                        res = 'same' if w(c['args'][0], c['args'][1], kw=c['kw']) is token else 'other'
                    except KeyError:
                        res = 'raised'
                fs = sorted(os.listdir(td)) if os.path.isdir(td) else []
                line, name = [], ''
                if fs:
                    name = fs[0]
                    v = [float(x) for x in open(os.path.join(td, name)).read().strip().split(',')]
                    line = [int(round((x - v[0]) * 1000)) for x in v[:2]] + [int(round(x * 1000)) for x in v[2:]]
                ev.append(dict(op='timed', calls=len(seen), seen=seen[-1] if seen else [], result=res, files=len(fs), name=name, line=line))
        return ev
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
