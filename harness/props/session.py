"""Sessions with problem objects (spec/Session.tla)."""
import json
from asmlib import *
import standin
from props.linear import options as backend


def linear_opts(name):
    return {'default': {}, 'spsolve': {'spsolve_solver': {}}, 'petsc': {'petsc_solver': {'ksp_type': 'preonly', 'pc_type': 'lu'}}, 'jax': {'jax_solver': {}},
            'jax_plain': {'jax_solver': {'precond': False}}, 'gmres': {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'lu'}}}[name]


def nonlinear_opts(name):
    if name == 'default':
        return {}
    if name == 'flat_spsolve':
        return {'spsolve_solver': {}, 'tol': 1e-7}
    if name == 'spsolve_ls':
        return {'newton': {'linear': {'spsolve_solver': {}}, 'line_search_flag': True}}
    return {'newton': {'linear': linear_opts(name)}}


class Budget(Exception):
    pass


def run(sc):
    ev, pbs, keys, oracles, objs, log, classes = [], {}, {}, {}, {}, {}, {}

    def do(f, *a, **kw):
        r, e = call(f, *a, **kw)
        if e:
            raise Observed(ev, e)
        return r

    def shared(key, mk):      # problems with equal records share their mesh and condition objects
        key = json.dumps(key)
        if key not in objs:
            o = mk()
            objs[key] = (o, snapshot(o))
        return objs[key][0]

    def build(k):
        rec = sc['pbs'][k]
        ms = [shared(('mesh', rec['den'], m), lambda: mesh_of(m, rec['den'])) for m in rec['meshes']]
        pb = do(make_problem, rec, ms, [shared(('bc', rec['den'], rec['dim'], c), lambda: bc_info(c, rec['den'], rec['dim'])) for c in rec['bcs']], classes=classes)
        if rec['P']:
            pb.P_mat = pmat(rec['P'])
        return pb
    for o in sc['ops']:
        k = o['pb'] - 1
        rec = sc['pbs'][k]
        if k not in pbs:
            pbs[k] = build(k)
            ev.append(dict(op='setup', pb=k + 1, tab=tables(pbs[k]), sel=[ints(b) for b in pbs[k].boundary_inds_list]))
        pb, op = pbs[k], o['op']
        if op in ('bc', 'geometry'):
            log.setdefault(k, []).append(o)
            oracles.pop(k, None)
        if op == 'params':
            do(pb.set_params, tree_of(rec, pb, o['prm']))
            ev.append(dict(op=op))
        elif op == 'bc':
            do(pb.fes[o['v']].update_Dirichlet_boundary_conditions, bc_info(o['conds'], rec['den'], rec['dim']))
            pb.note_bc()
            ev.append(dict(op=op))
        elif op == 'geometry':
            do(pb.initialize_geometric_quantities, [jnp.array(np.array(p, dtype=float) / rec['den']) for p in o['pts']])
            ev.append(dict(op=op))
        elif op == 'constrain':
            pb.P_mat = pmat(o['P'])
            ev.append(dict(op=op))
        elif op == 'periodic':
            per = periodic_helper()
            ts = o['ties']

            def shift(d):
                return lambda p: p + jnp.array(np.array(d, dtype=float) / rec['den'])
            P = do(per, [[pred_fn(t['A'], rec['den']) for t in ts], [pred_fn(t['B'], rec['den']) for t in ts], [shift(t['delta']) for t in ts],
                         [t['comp'] for t in ts]], pb.mesh[0], rec['vecs'][0])
            pb.P_mat = P
            rows = [[[int(P.indices[i]) + 1, int(round(4 * P.data[i])) if abs(4 * P.data[i]) < 1e6 else 999] for i in range(P.indptr[r], P.indptr[r + 1])] for r in range(P.shape[0])]
            ev.append(dict(op=op, rows=rows, cols=P.shape[1]))
        elif op == 'inputs':
            ev.append(dict(op=op, same=all(same_snap(snapshot(o_), s_) for o_, s_ in objs.values())))
        elif op == 'capture':
            box = do(capture, pb, o['u'])
            ev.append(dict(op=op, b=fx(box['b']), av=[fx(box['A'] @ (np.array(d) / 4.)) for d in o['dirs']]) if box else dict(op='no_iteration'))
        elif op in ('residual', 'linearise'):
            sol = unflat(pb, o['u'])
            s0 = [np.array(s) for s in sol]
            if op == 'residual':
                rec_ = dict(op=op, res=fx(flat(do(pb.compute_residual, sol))))
            else:
                r = do(pb.newton_update, sol)
                A = dense(do(S.get_A, pb)) if o['dirs'] else None
                rec_ = dict(op=op, res=fx(flat(r)), av=[fx(A @ (np.array(d) / 4.)) for d in o['dirs']])
            rec_['same'] = len(sol) == len(s0) and all(np.array_equal(a, b) for a, b in zip(sol, s0))
            ev.append(rec_)
        elif op in ('solve', 'relax', 'arc', 'reject'):
            try:
                dict(solve=solve, relax=relax, arc=arc, reject=reject)[op](ev, pb, rec, o)
            finally:
                standin.SINK = None
        elif op == 'fwd':
            tree = tree_of(rec, pb, o['prm'])
            before = jax.tree_util.tree_map(np.array, tree)
            if k not in keys:
                keys[k] = {}
                so = nonlinear_opts(o['sopts']) if o['slin']['kind'] == 'unjudged' else form_of(o['form'], {}, o['slin'])
                ao = linear_opts(o['aopts']) if o['alin']['kind'] == 'unjudged' else backend(o['alin'])
                keys[k]['o'] = [(so, frozen(so)), (ao, frozen(ao))]
                keys[k]['f'] = S.ad_wrapper(pb, *(() if so is None and not ao else ({} if so is None else so,) if not ao else (so, ao)))
            calls = listen()
            y, pull = do(jax.vjp, keys[k]['f'], tree)
            keys[k][o['key']] = (pull, tree, y, o['prm'])
            ev.append(dict(op=op, u=fx(flat(y)), same=same_tree(tree, before), calls=calls, opts=all(thawed(*x) for x in keys[k]['o'])))
            standin.SINK = None
        elif op == 'bwd':
            pull, tree, y, prm = keys[k][o['key']]
            before = jax.tree_util.tree_map(np.array, (tree, y))
            u = np.array(flat(y))
            cot = pb.unflatten_fn_sol_list(jnp.array(np.array(o['w']) / 4. + np.array(o['z']) / 4. * u))
            calls = listen()
            g, = do(pull, cot)
            standin.SINK = None
            conform = (jax.tree_util.tree_structure(g) == jax.tree_util.tree_structure(tree)
                       and all(np.shape(a) == np.shape(b) for a, b in zip(jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(tree))))
            gs, wit = [], []
            if k not in oracles:
                oracles[k] = rebuilt(build(k), rec, log.get(k, []))
            if hasattr(pb, 'P_mat'):
                oracles[k].P_mat = pb.P_mat
            A, rhs = linear_response(oracles[k], rec, prm, y)
            for d in ('x1', 'x2', 'x3', 'be', 'ga'):
                if d in rhs:
                    v = dir_of(rec, pb, prm, d)
                    gs.append(fx(sum(float(jnp.sum(a * b)) for a, b in zip(jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(v)))))
                    wit.append(fx(np.linalg.lstsq(A, -rhs[d], rcond=None)[0]))
                else:
                    gs.append(0)
                    wit.append([])
            ev.append(dict(op=op, g=gs, wit=wit, conform=bool(conform), same=same_tree((tree, y), before), calls=calls, opts=all(thawed(*x) for x in keys[k]['o'])))
    return ev


def snapshot(o):
    """The content of a mesh or of a list of conditions."""
    if o is None:
        return None
    if isinstance(o, list):
        return [list(x) for x in o]
    return [np.array(o.points), np.array(o.cells), o.ele_type]


def same_snap(a, b):
    if a is None or b is None:
        return a is b
    return len(a) == len(b) and all(np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y for x, y in zip(a, b))


def rebuilt(pb, rec, ops):
    for o in ops:
        if o['op'] == 'bc':
            pb.fes[o['v']].update_Dirichlet_boundary_conditions(bc_info(o['conds'], rec['den'], rec['dim']))
            pb.note_bc()
        else:
            pb.initialize_geometric_quantities([jnp.array(np.array(p, dtype=float) / rec['den']) for p in o['pts']])
    return pb


def periodic_helper():
    import importlib.util
    spec = importlib.util.spec_from_file_location('periodic_example', os.path.join(os.path.dirname(os.path.dirname(S.__file__)), 'applications/periodic_bc/example.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.periodic_boundary_conditions


def same_tree(a, b):
    return all(np.array_equal(x, y) for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)))


def linear_response(pb, rec, prm, sol):
    """Matrix and right-hand sides of the sensitivities, on a problem of their own."""
    tree = tree_of(rec, pb, prm)
    pb.set_params(tree)
    pb.newton_update(sol)
    A = dense(S.get_A(pb))
    rhs = {}
    for d, h in (('x1', 1.), ('x2', 1.), ('x3', 1.), ('be', 1.), ('ga', 1e-3)):
        if d in ('be', 'ga') and {'be': 'beta', 'ga': 'geo'}[d] not in prm['use']:
            continue
        v = dir_of(rec, pb, prm, d)
        r = []
        for s in (h, -h):
            pb.set_params(jax.tree_util.tree_map(lambda a, b: a + s * b, tree, v))
            r.append(constrained(pb, sol))
        rhs[d] = (r[0] - r[1]) / (2 * h)
    return A, rhs


def listen(to=None, limit=60, count=None):
    """Collects the calls of the library solvers from now on."""
    calls = [] if to is None else to
    count = [0] if count is None else count

    def sink(kind, ksp, pc, pre, n):
        count[0] += 1
        if count[0] > limit:
            raise Budget
        calls.append(dict(op='call', kind=kind, ksp=ksp, pc=pc, pre=pre, n=fl(n)))
    standin.SINK = sink
    return calls


def frozen(o):
    """A copy of an option dictionary: nested dictionaries anew, other values themselves and their content."""
    if isinstance(o, dict):
        return {k: frozen(v) for k, v in o.items()}
    return (o, [np.array(x) for x in jax.tree_util.tree_leaves(o)] if isinstance(o, (list, tuple)) or hasattr(o, 'shape') else None)


def thawed(o, f):
    """Whether an option dictionary is as it was when it was frozen."""
    if isinstance(f, dict):
        return isinstance(o, dict) and o.keys() == f.keys() and all(thawed(o[k], f[k]) for k in f)
    return o is f[0] and (f[1] is None or all(np.array_equal(a, b) for a, b in zip(jax.tree_util.tree_leaves(o), f[1])))


def form_of(form, cfg, lin, fn=None):
    """Solver options of Newton's method in one of the documented forms."""
    l = None if lin['kind'] == 'absent' else backend(lin, fn)
    if form == 'flat':
        return {**cfg, **(l or {})}
    if form in ('none', 'empty'):
        return None if form == 'none' else {}
    return {'newton': dict(cfg) if l is None else {**cfg, 'linear': l}}


def shaped(rec, sol):
    return isinstance(sol, list) and [tuple(np.shape(s)) for s in sol] == [(len(m['pts']), v) for m, v in zip(rec['meshes'], rec['vecs'])]


def number(d):
    return d[0] * 10. ** d[1]


def free_max(pb, u):
    """The largest residual component that no condition constrains."""
    r = np.array(flat(pb.compute_residual(pb.unflatten_fn_sol_list(jnp.array(u)))))
    for fe, off in zip(pb.fes, pb.offset):
        for ni, vi in zip(fe.node_inds_list, fe.vec_inds_list):
            r[np.array(ni) * fe.vec + np.array(vi) + off] = 0.
    return np.max(np.abs(r)) if len(r) else 0.


def with_bc(pb, u):
    u = np.array(u, dtype=float)
    for fe, off in zip(pb.fes, pb.offset):
        for ni, vi, val in zip(fe.node_inds_list, fe.vec_inds_list, fe.vals_list):
            u[np.array(ni) * fe.vec + np.array(vi) + off] = np.array(val)
    return u


def relax(ev, pb, rec, o):
    cfg = {}
    if 'tol' not in o['omit']:
        cfg['tol'] = number(o['tol'])
    if 'nkm' not in o['omit']:
        cfg['nKMat'] = o['nkm']
    if o['ls']:
        cfg.update(info=False, info_force=False)
    if o['lin']['kind'] != 'absent':
        cfg['linear'] = backend(o['lin'])
    guess = g0 = None
    n0 = 0.
    if o['guess']:
        g = np.array(o['guess']) / 4.
        guess = cfg['initial_guess'] = pb.unflatten_fn_sol_list(jnp.array(g))
        g0 = [np.array(x) for x in guess]
        n0 = free_max(pb, with_bc(pb, g))
    opts = {'dynamic_relax': cfg}
    ice = frozen(opts)
    ev.append(dict(op='relax', n=fl(n0)))
    listen(ev)
    sol, e = call(S.solver, pb, opts)
    standin.SINK = None
    if e:
        ev.append(dict(op='raised', text=e))
        return
    same = guess is None or all(np.array_equal(a, b) for a, b in zip(guess, g0))
    ev.append(dict(op='relaxed', u=fx(flat(sol)), n=fl(free_max(pb, flat(sol))), shape=shaped(rec, sol), same=bool(same), opts=thawed(opts, ice)))


def arc(ev, pb, rec, o):
    cfg = {'control': o['ctl']}
    om = o['omit']
    for k, name in (('dl', 'Delta_l'), ('psi', 'psi')) + ((('late', 'Delta_l_late'),) if o['ctl'] == 'force' else ()):
        if k not in om:
            cfg[name] = number(o[k])
    if 'switch' not in om and o['ctl'] == 'force':
        cfg['Delta_l_switch_step'] = o['switch']
    if 'maxs' not in om:
        cfg['max_continuation_steps'] = o['maxs']
    own = np.array(S.get_q_vec(pb))
    q = np.zeros(len(own))
    if o['ctl'] == 'force':
        q = np.array(o['q']) / 4. - own
        cfg['q_vec_aux'] = jnp.array(q)
    if o['ret'] or 'ret' not in om:
        cfg['return_info'] = o['ret']
    if o['lin']['kind'] != 'absent':
        cfg['linear'] = backend(o['lin'])
    newton = {}
    if 'ntol' not in om:
        newton['tol'] = number(o['ntol'])
    if 'nrel' not in om:
        newton['rel_tol'] = number(o['nrel'])
    if o['nlin']['kind'] != 'absent':
        newton['linear'] = backend(o['nlin'])
    if o['guess']:      # of no use to a polish, which starts where the path ended
        newton['initial_guess'] = pb.unflatten_fn_sol_list(jnp.array(np.array(o['guess']) / 4.))
    if newton:
        cfg['newton'] = newton
    last, calls, count = [None], [], [0]

    def step(k, u, lam):
        last[0] = np.array(u, dtype=float)
        count[0] = 0
        calls.clear()           # those of the continuation itself
        ev.append(dict(op='step', step=int(k), lam=dec(lam), u=dec(last[0])))
    if o['cb']:
        cfg['step_callback'] = step
    opts = {'arc_length': cfg}
    ice = frozen(opts)
    ev.append(dict(op='arc', q=dec(q), own=fx(own)))
    listen(calls, 300 if o['cb'] else 1500, count)       # a corrector that does not settle is stopped
    r, e = call(S.solver, pb, opts)
    standin.SINK = None
    if o['cb']:
        ev.extend(calls)
    if e:
        ev.append(dict(op='raised', text=e))
        return
    tup = isinstance(r, tuple)
    sol, info = r if tup else (r, None)
    u = np.array(flat(sol))
    done = dict(op='arc_done', tuple=tup, shape=shaped(rec, sol), u=fx(u), n=fl(np.linalg.norm(constrained(pb, sol))), opts=thawed(opts, ice))
    if tup:
        h = [dict(step=int(x['step']), lam=dec(x['lam']), u=dec(x['u'])) for x in info['history']]
        done.update(lam=dec(info['lam']), target=dec(info['lambda_target']), polished=bool(info['polished']), control=str(info['control']), hist=h)
        if info['history']:
            last[0] = np.array(info['history'][-1]['u'], dtype=float)
    start = np.zeros(len(u)) if last[0] is None else last[0]
    done['ns'] = fl(np.linalg.norm(constrained(pb, pb.unflatten_fn_sol_list(jnp.array(start)))))
    ev.append(done)


def reject(ev, pb, rec, o):
    q = jnp.zeros(pb.num_total_dofs_all_vars)
    sp = {'linear': {'spsolve_solver': {}}}
    ok = {'newton': dict(sp), 'arc_length': {'control': 'displacement', 'max_continuation_steps': 1}, 'dynamic_relax': {'tol': 1e-1}}
    opts = {'newton_arc': {k: ok[k] for k in ('newton', 'arc_length')}, 'newton_relax': {k: ok[k] for k in ('dynamic_relax', 'newton')}, 'arc_relax': {k: ok[k] for k in ('arc_length', 'dynamic_relax')}, 'all': ok,
            'list': {'newton': [1e-6]}, 'nothing': {'newton': None}, 'name': {'arc_length': 'displacement'}, 'flag': {'dynamic_relax': True},
            'no_control': {'arc_length': {'max_continuation_steps': 1}}, 'other_control': {'arc_length': {'control': o['ctl'], 'q_vec_aux': q, 'max_continuation_steps': 1}},
            'no_load': {'arc_length': {'control': 'force', 'max_continuation_steps': 1}}}[o['bad']]
    ice = frozen(opts)
    listen(limit=50)
    r, e = call(S.solver, pb, opts)
    ev.append(dict(op='reject', rejected=bool(e), opts=thawed(opts, ice)))


def solve(ev, pb, rec, o):
    cfg = {}
    guess = None
    if o['guess']:
        guess = lift(pb, np.array(o['guess']) / 4.) if o['full'] or not hasattr(pb, 'P_mat') else jnp.array(np.array(o['guess']) / 4.)
        g0 = [np.array(g) for g in guess]
        cfg['initial_guess'] = guess
    if 'tol' not in o['omit']:
        cfg['tol'] = o['tol'][0] * 10. ** o['tol'][1]
    if 'rel' not in o['omit']:
        cfg['rel_tol'] = o['rel'][0] * 10. ** o['rel'][1]
    if 'ls' not in o['omit']:
        cfg['line_search_flag'] = o['ls']
    state = dict(n=0, size=max([abs(x) / 4. for x in o['guess']] + [0.]))
    script = o['script']

    def custom(A, b, x0, opts):
        A, b = dense(A), np.array(b)
        i = state['n']
        state['n'] += 1
        it = script[i] if i < len(script) else dict(k='true', c=4, v=[])
        if it['k'] == 'true':
            inc = np.linalg.lstsq(A, b, rcond=None)[0] * it['c'] / 4.
        elif it['k'] == 'vec':
            inc = np.array(it['v']) / 4.
        elif it['k'] == 'huge':         # finite, but the residual there is not
            inc = 1e200 * (1. - 2. * ((np.arange(len(b)) * 7 + it['c']) % 5 % 2))
        else:
            inc = np.zeros(len(b))
            inc[it['c'] % len(b)] = np.nan if it['k'] == 'nan' else np.inf
        finite = bool(np.all(np.abs(inc) < 1e100))
        if finite:
            state['size'] += np.max(np.abs(inc))
        state['b'] = np.linalg.norm(b)
        if i >= 11 or state['size'] > 6 or not np.max(np.abs(b)) < 300:
            raise Budget
        ev.append(dict(op='linear', b=fx(b), n=fl(np.linalg.norm(b)), av=[fx(A @ (np.array(d) / 4.)) for d in o['dirs']], inc=fx(inc), bad=not finite))
        if it['k'] == 'huge':
            state['size'] = 99.
        return jnp.array(inc)
    if o['lin']['kind'] == 'unjudged':
        if o['back'] == 'custom':
            cfg['linear'] = {'custom_solver': custom}
        elif o['back'] != 'default':
            cfg['linear'] = {o['back']: {}}
        opts = {'newton': cfg}
    else:
        opts = form_of(o['form'], cfg, o['lin'], custom)
    ice = frozen(opts) if opts else None
    start = lift(pb, np.array(o['guess']) / 4.) if o['guess'] and not hasattr(pb, 'P_mat') else None
    n0 = np.linalg.norm(constrained(pb, start if start is not None else pb.unflatten_fn_sol_list(jnp.zeros(pb.num_total_dofs_all_vars)))) if o['lin']['kind'] != 'unjudged' else 0.
    ev.append(dict(op='solve', n=fl(n0)))
    try:
        if o['lin']['kind'] != 'unjudged':
            listen(ev)
        sol = S.solver(pb) if opts is None else S.solver(pb, opts)
        standin.SINK = None
    except Budget:
        ev.append(dict(op='budget', n=fl(state.get('b', float('nan')))))
        return
    except Exception as e:
        traceback.print_exc()
        ev.append(dict(op='raised', text=err_text(e)))
        return
    shape = shaped(rec, sol)
    same = guess is None or all(np.array_equal(a, b) for a, b in zip(guess, g0))
    r, e = call(constrained, pb, sol)
    if e:
        raise Observed(ev, e)
    ev.append(dict(op='solved', u=fx(flat(sol)), n=fl(np.linalg.norm(r)), shape=shape, same=bool(same), opts=ice is None or thawed(opts, ice)))
