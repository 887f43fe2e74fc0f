"""Orchestration of one check: TLC generates scenarios, workers replay them against /repo, TLC judges the traces."""
import json, os, queue, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NW = max(1, min(8, os.cpu_count() or 1))


class MachineError(Exception):
    pass


def tlc(module, cfg, scratch, env=None, workers=NW, timeout=800, args=(), heap='6g'):
    """Run TLC on spec/<module>.tla with the given cfg text; returns the output text."""
    meta = tempfile.mkdtemp(prefix='tlc-', dir=scratch)
    cfgp = os.path.join(meta, module + '.cfg')
    with open(cfgp, 'w') as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + meta,
           '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-lncheck', 'final', '-config', cfgp, *args,
           os.path.join(SPEC, module + '.tla')]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=meta, text=True)
    lines, killed = [], []

    def kill(why):
        killed.append(why)
        p.kill()
    timer = threading.Timer(timeout, kill, ['timeout'])
    timer.start()
    errt = None
    for ln in p.stdout:
        if not ln.startswith(('Parsing file', 'Semantic processing', 'Linting of')):
            lines.append(ln.rstrip('\n'))
        if ln.startswith('Error:') and errt is None:      # TLC may leave other workers running after an evaluation error
            errt = threading.Timer(10, kill, ['error'])
            errt.start()
    rc = p.wait()
    timer.cancel()
    if errt:
        errt.cancel()
    out = '\n'.join(lines)
    if 'timeout' in killed:
        raise MachineError(f'TLC {module}: timeout after {timeout}s\n{out[-2000:]}')
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def tlc_counts(out):
    m = re.search(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
    if not m:
        return 0, 0
    g, d = (int(x.replace(',', '')) for x in m.groups())
    return g, d


def generate(module, scratch, consts, env):
    """ASSUME-only generator modules: they write their scenarios as JSON to IOEnv.OUT."""
    outp = os.path.join(scratch, f'gen-{module}.json')
    rc, out = tlc(module, '', scratch, env={**env, 'OUT': outp}, workers=1, timeout=300)
    if not os.path.exists(outp) or 'Error' in out:
        raise MachineError(f'generator {module} failed:\n{out[-3000:]}')
    with open(outp) as f:
        return json.load(f), out


# --------------------------------------------------------------------------- workers
def worker_env(scratch):
    e = dict(os.environ)
    e.update(JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             MPLBACKEND='Agg', PYTHONHASHSEED='0', JAX_ENABLE_COMPILATION_CACHE='true',
             JAX_COMPILATION_CACHE_DIR=os.path.join(scratch, 'jaxcache'),
             JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS='0.05', JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES='-1',
             XLA_FLAGS='--xla_backend_optimization_level=0 --xla_cpu_multi_thread_eigen=false',
             PATH='/opt/venv/bin:' + e.get('PATH', ''), TF_CPP_MIN_LOG_LEVEL='3')
    e['PYTHONPATH'] = REPO
    e.pop('PYTHONSTARTUP', None)
    return e


class Worker(threading.Thread):
    def __init__(self, prop, q, results, scratch, limit):
        super().__init__(daemon=True)
        self.prop, self.q, self.results, self.scratch, self.limit = prop, q, results, scratch, limit
        self.p = None
        self.err = None

    def start_proc(self):
        self.dir = tempfile.mkdtemp(prefix='w-', dir=self.scratch)
        self.log = open(os.path.join(self.dir, 'log'), 'wb')
        self.p = subprocess.Popen([PY, '-B', os.path.join(VERIF, 'harness', 'worker.py'), self.prop, self.dir],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log,
                                  env=worker_env(self.scratch), cwd=self.dir)

    def run(self):
        try:
            while True:
                try:
                    group = self.q.get_nowait()
                except queue.Empty:
                    break
                for i, sc in group:
                    if self.p is None:
                        self.start_proc()
                    self.results[i] = self.one(sc)
            if self.p is not None:
                self.p.stdin.close()
                self.p.wait(20)
        except Exception as ex:  # pragma: no cover - machinery failure
            self.err = ex
        finally:
            if self.p is not None and self.p.poll() is None:
                self.p.kill()

    def one(self, sc):
        box = {}
        t0 = time.time()

        def talk():
            try:
                self.p.stdin.write((json.dumps(sc) + '\n').encode())
                self.p.stdin.flush()
                box['line'] = self.p.stdout.readline()
            except Exception as ex:
                box['exc'] = repr(ex)
        t = threading.Thread(target=talk, daemon=True)
        t.start()
        t.join(self.limit)
        if t.is_alive():
            self.p.kill()
            self.p = None
            return dict(ev=[dict(op='stuck', err='no answer within the time limit')], wall=time.time() - t0)
        line = box.get('line') or b''
        if not line:
            rc = self.p.wait()
            self.p = None
            tail = open(os.path.join(self.dir, 'log'), 'rb').read()[-1500:].decode(errors='replace')
            if rc is not None and rc > 0:
                raise MachineError(f'worker exited {rc}:\n{tail}')
            return dict(ev=[dict(op='died', err=f'process ended with {rc}')], wall=time.time() - t0, tail=tail)
        r = json.loads(line)
        if 'machine' in r:
            raise MachineError(f'driver error on {json.dumps(sc)[:600]}:\n' + r['machine'])
        r['wall'] = time.time() - t0
        return r


def replay(prop, scenarios, scratch, limit=240, workers=NW):
    """Replay every scenario on the real code; scenarios with the same 'grp' share a worker process."""
    groups = {}
    for i, sc in enumerate(scenarios):
        groups.setdefault(json.dumps(sc.get('grp', i)), []).append((i, sc))
    q = queue.Queue()
    for g in sorted(groups.values(), key=lambda g: -sum(sc.get('cost', 1) for _, sc in g)):
        q.put(g)
    results = [None] * len(scenarios)
    ws = [Worker(prop, q, results, scratch, limit) for _ in range(min(workers, len(groups)))]
    for w in ws:
        w.start()
    for w in ws:
        w.join()
    for w in ws:
        if w.err:
            raise w.err if isinstance(w.err, MachineError) else MachineError(repr(w.err))
    return results


# --------------------------------------------------------------------------- verdicts
def trace_cfg(init, apply):
    return f'SPECIFICATION Spec\nCONSTANTS\n  InitSt <- {init}\n  Apply <- {apply}\nCHECK_DEADLOCK FALSE\n'


FAIL_RE = re.compile(r'^<<"FAIL", (\d+), (\d+), (.*)>>$', re.S)


def parse_fails(out):
    """TLC may wrap long tuples over several lines: join continuation lines up to balanced brackets."""
    fails = []
    lines = out.splitlines()
    i = 0
    while i < len(lines):
        ln = lines[i]
        if re.match(r'^<<\s*"FAIL"', ln.strip()):
            buf = ln.strip()
            while buf.count('<<') > buf.count('>>') or buf.count('{') > buf.count('}'):
                i += 1
                if i >= len(lines):
                    break
                buf += ' ' + lines[i].strip()
            m = re.match(r'^<<\s*"FAIL",\s*(\d+),\s*(\d+),\s*\{(.*)\}\s*>>$', buf, re.S)
            if not m:
                raise MachineError('cannot parse verdict line: ' + buf[:300])
            sid, l, body = m.groups()
            clauses = re.findall(r'"([^"]*)"', body)
            fails.append((int(sid), int(l), clauses))
        i += 1
    return fails


def judge(module, init, apply, scenarios, results, scratch, timeout=800, tag=''):
    """Total verdicts: an event the specification cannot even evaluate (numbers out of range, wrong shapes) is a failing event."""
    evs = [r['ev'] for r in results]
    fails, extra = [], []
    for attempt in range(4):
        tr = os.path.join(scratch, f'trace-{module}{tag}.ndjson')
        n_ev = 0
        with open(tr, 'w') as f:
            for sc, ev in zip(scenarios, evs):
                n_ev += len(ev)
                f.write(json.dumps(dict(sc=sc, ev=ev)) + '\n')
        rc, out = tlc(module, trace_cfg(init, apply), scratch, env=dict(TRACE=tr), timeout=timeout)
        g, d = tlc_counts(out)
        fails = parse_fails(out)
        if 'Error' not in out:
            if d != n_ev + len(scenarios):
                raise MachineError(f'trace specification {module} covered {d} of {n_ev + len(scenarios)} states:\n{out[-3500:]}')
            break
        at = re.findall(r'^/\\ sid = (\d+)$', out, re.M), re.findall(r'^/\\ l = (\d+)$', out, re.M)
        if not at[0] or not at[1]:
            raise MachineError(f'trace specification {module}:\n{out[-3500:]}')
        sid, l = int(at[0][-1]), int(at[1][-1])
        i = out.index('Error')
        print(f'  scenario {sid} event {l} cannot be evaluated: ' + ' '.join(x for x in out[i:].splitlines() if 'override' not in x and 'produced' not in x)[-400:][:400])
        extra.append((sid, l, ['uninterpretable']))
        evs[sid - 1] = evs[sid - 1][:l - 1]
    return sorted(set((s, l, tuple(c)) for s, l, c in fails + extra)), g, d, n_ev


def model_check(module, cfg, scratch, workers=NW, timeout=600, env=None, args=()):
    rc, out = tlc(module, cfg, scratch, workers=workers, timeout=timeout, env=env or {}, args=args)
    g, d = tlc_counts(out)
    if rc != 0 or 'Error' in out:
        raise MachineError(f'model {module} does not satisfy its own invariants:\n{out[-4000:]}')
    return g, d, out
