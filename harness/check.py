#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's working tree (see DESIGN.md)."""
import json, os, shutil, sys, tempfile, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from plans import PLANS

OUT = os.environ.get('VERIF_OUT', core.VERIF)       # evidence and replays (elsewhere only while trying planted bugs)
KNOWN = os.path.join(core.VERIF, 'known_findings.json')


def load_known(prop):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)['known'] if k['property'] == prop]
    except FileNotFoundError:
        return []


def matches(k, sc, clause):
    return clause in k['clauses'] and all(sc.get(a) == b for a, b in k['scenario'].items())


def short(x, n=1200):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + '...'


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = [a[7:] for a in sys.argv if a.startswith('--only=')]
    keep = '--keep' in sys.argv
    plan = PLANS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    env = dict(TIER=tier, SEED=seed % 10007)
    models, viol, known_hits = [], [], set()
    states = transitions = ntraces = nevents = 0
    samples, parts_info = [], []
    try:
        mres = {}

        def run_models():
            try:
                for m in plan.get('models', []):
                    if m.get('tier', tier) != tier:
                        continue
                    a = time.time()
                    g, d, out = core.model_check(m['module'], m['cfg'][tier] if isinstance(m['cfg'], dict) else m['cfg'], scratch,
                                                 workers=m.get('workers', 2), timeout=m.get('timeout', 600), env=env, args=m.get('args', ()))
                    models.append(dict(module=m['module'], states=d, transitions=g, wall_s=round(time.time() - a, 1), what=m.get('what', '')))
            except BaseException as ex:
                mres['err'] = ex
        mt = threading.Thread(target=run_models)
        mt.start()
        verdict_threads, part_out = [], {}
        for part in plan['parts']:
            if only and part['name'] not in only:
                continue
            a = time.time()
            scs, _ = core.generate(part['gen'], scratch, None, {**env, **part.get('env', {})})
            scs = sorted(scs, key=lambda s: json.dumps(s, sort_keys=True))
            b = time.time()
            res = core.replay(part['driver'], scs, scratch, limit=part.get('limit', 240))
            c = time.time()
            if keep:
                for i, r in enumerate(res):
                    for x in r['ev']:
                        if 'err' in x:
                            print('   scenario', i + 1, short(scs[i], 300), x)
            fails, g, d, n_ev = core.judge(part['trace'], part.get('init', 'MyInit'), part.get('apply', 'MyApply'), scs, res, scratch, tag='-' + part['name'])
            e = time.time()
            parts_info.append(dict(part=part['name'], scenarios=len(scs), events=n_ev, gen_s=round(b - a, 1), replay_s=round(c - b, 1), judge_s=round(e - c, 1)))
            states += d
            transitions += g - len(scs)
            ntraces += len(scs)
            nevents += n_ev
            for i in (0, len(scs) // 2):
                if i < len(scs):
                    samples.append(dict(part=part['name'], scenario=json.loads(json.dumps(scs[i])), first_events=[short(x, 400) for x in res[i]['ev'][:3]]))
            for sid, l, clauses in fails:
                sc, r = scs[sid - 1], res[sid - 1]
                for cl in clauses:
                    if cl in part.get('elsewhere', []):   # a clause another property's check owns
                        continue
                    ks = [k for k in load_known(prop) if matches(k, sc, cl)]
                    if ks:
                        known_hits.add(ks[0]['what'])
                    else:
                        viol.append(dict(part=part['name'], clause=cl, scenario=sc, event_index=l, event=r['ev'][l - 1], tail=r.get('tail', '')))
            if keep:
                slow = sorted(zip([r['wall'] for r in res], scs), key=lambda x: -x[0])[:5]
                for w, s in slow:
                    print(f'   slow {w:.1f}s {short(s, 200)}')
                print('   sum of replay walls', round(sum(r['wall'] for r in res), 1))
        mt.join()
        if 'err' in mres:
            raise mres['err']
        states += sum(m['states'] for m in models)
        transitions += sum(m['transitions'] for m in models)
        for s in samples:
            if len(json.dumps(s)) > 4000:
                s['scenario'] = short(s['scenario'], 3000)
        ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
                  coverage=dict(states=states, transitions=transitions, traces_validated_against_impl=ntraces,
                                events_validated=nevents, models=models, parts=parts_info, samples=samples[:6],
                                violations_found=len(viol), known_findings_seen=sorted(known_hits)),
                  assumptions=plan.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(viol))
        os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
        with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in sorted(known_hits):
            print(f'KNOWN-FINDING: property={prop} {k}')
        if viol:
            os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
            path = os.path.join(OUT, 'replays', f'{prop}.json')
            bycl = {}
            for v in viol:
                bycl.setdefault((v['part'], v['clause']), []).append(v)
            with open(path, 'w') as f:
                json.dump([v for _, vs in sorted(bycl.items()) for v in vs[:8]], f, indent=1)
            for (p_, cl), vs in sorted(bycl.items()):
                print(f'  part {p_} clause {cl}: {len(vs)} failing events, first scenario {short(vs[0]["scenario"], 300)}')
                if isinstance(vs[0]['event'], dict) and 'err' in vs[0]['event']:
                    print(f'    {vs[0]["event"]["err"]}')
            print(f'VIOLATION property={prop} replay={path}')
            return 1
        print(f'ok property={prop} tier={tier} scenarios={ntraces} events={nevents} states={states} transitions={transitions} wall={time.time()-t0:.1f}s'
              + (' ' + json.dumps(parts_info) + json.dumps(models) if keep else ''))
        return 0
    except core.MachineError as ex:
        print('MACHINE-ERROR', prop, ex)
        return 2
    except BaseException:
        traceback.print_exc()
        return 2
    finally:
        if keep:
            print('scratch', scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
