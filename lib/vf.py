"""Harness: runs TLC on the specifications in /verif/spec, validates traces that were
recorded from the code in /repo with them, and reports the verdict of a check."""
import concurrent.futures as cf
import contextlib, hashlib, io, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO  = os.environ.get('VF_REPO', '/repo')
SPEC  = os.path.join(VERIF, 'spec')
TLA   = '/opt/veriftools/tla'
JARS  = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'

for _k, _v in dict(OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', NUMBA_NUM_THREADS='1',
                   MPLBACKEND='Agg', PYTHONHASHSEED='0', NUMBA_DISABLE_JIT='1').items():
    os.environ.setdefault(_k, _v)
sys.dont_write_bytecode = True


class Machinery(Exception):
    """The machinery (not the code under test) failed."""


def use_repo():
    """Import the code under test from REPO."""
    os.environ.setdefault('MPLCONFIGDIR', os.path.join(tempfile.gettempdir(), 'vf_mpl'))
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all='ignore')
    import warnings
    warnings.filterwarnings('ignore')
    with quiet():
        import gpgradpy.src as g
    assert os.path.realpath(g.__file__).startswith(os.path.realpath(REPO)), g.__file__


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def S(v):
    """Value for a trace: reals become decimal literals (as nested lists of strings)."""
    import numpy as np
    if v is None: return 'none'
    if isinstance(v, (bool, np.bool_)): return bool(v)
    if isinstance(v, str): return v
    if isinstance(v, np.ndarray): return S(v.tolist())
    if isinstance(v, (list, tuple)): return [S(x) for x in v]
    if isinstance(v, (int, np.integer)): return str(int(v))
    if isinstance(v, (complex, np.complexfloating)):
        return repr(float(v.real)) if v.imag == 0 else 'nan'
    return repr(float(v))


def call(f, *a, **k):
    """(outcome, value, text): calls the code under test; an exception is an outcome."""
    try:
        with quiet():
            return 'ok', f(*a, **k), ''
    except Exception as e:  # noqa
        return 'exc', None, f'{type(e).__name__}: {str(e)[:200]}'


def _pinit(path):
    sys.path[:0] = [p for p in path if p not in sys.path]
    use_repo()


def pmap(f, items, procs=6):
    """Records in several processes; an exception of the code under test that nobody expected is raised here."""
    import multiprocessing as mp
    ctx = mp.get_context('spawn')
    with cf.ProcessPoolExecutor(procs, ctx, _pinit, ([os.path.join(VERIF, 'lib'), os.path.join(VERIF, 'checks'), REPO],)) as ex:
        return list(ex.map(_guard, [(f, x) for x in items], chunksize=max(1, min(8, len(items) // (4 * procs)))))


def _guard(a):
    f, x = a
    try: return f(x)
    except Exception as e:
        if in_repo(e.__traceback__): raise CodeFailed(f'{type(e).__name__}: {e}\n' + traceback.format_exc())
        raise


class CodeFailed(Exception):
    """The code under test raised an exception that the recorder did not expect."""


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0   = time.time()
        self.tmp  = tempfile.mkdtemp(prefix=f'vf_{prop}_')
        self.cls  = os.path.join(self.tmp, 'cls')
        self.viol = []          # (key, text, replay object)
        self.mc   = []          # per model-checking run: name, states, transitions
        self.traces = 0; self.events = 0; self.samples = []
        self.notes = []; self.extra = {}; self._pending = []
        self.pool = cf.ThreadPoolExecutor(8)
        self.thorough = self.tier == 'thorough'
        self._compiled = self.pool.submit(self._compile)

    def _compile(self):
        os.makedirs(self.cls)
        r = subprocess.run(['javac', '-nowarn', '-cp', f'{TLA}/tla2tools.jar', '-d', self.cls,
                            os.path.join(VERIF, 'java', 'RealArith.java')], capture_output=True, text=True)
        if r.returncode: raise Machinery('javac: ' + r.stderr[-2000:])

    def rng(self, salt=''):
        import numpy as np
        h = hashlib.sha256(f'{self.prop}/{self.seed}/{salt}'.encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:8], 'little'))

    # ---- TLC
    def tlc(self, module, cfg=None, args=(), workers=1, env=None, timeout=None, cwd=None, digits=None, mem='2g', lib=None):
        self._compiled.result(); timeout = timeout or (5 * 3600 if self.thorough else 800)
        meta = tempfile.mkdtemp(dir=self.tmp)
        cfg = cfg or os.path.join(SPEC, f'{module}.cfg')
        mod = os.path.join(lib or SPEC, f'{module}.tla')
        cmd = ['java', '-XX:+UseSerialGC', f'-Xmx{mem}', '-Xss16m', '-XX:TieredStopAtLevel=4']
        if digits: cmd.append(f'-Dreal.digits={digits}')
        cmd += [f'-DTLA-Library={SPEC}', '-cp', f'{self.cls}:{JARS}', 'tlc2.TLC', '-workers', str(workers),
                '-metadir', meta, '-noGenerateSpecTE', '-config', cfg, *args, mod]
        e = dict(os.environ); e.pop('JAVA_TOOL_OPTIONS', None); e.update(env or {})
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=cwd or self.tmp)
        except subprocess.TimeoutExpired:
            raise Machinery(f'TLC did not finish {module} within {timeout} s')
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    @staticmethod
    def counts(out):
        m = re.search(r'(\d+) states generated, (\d+) distinct states found, 0 states left', out)
        return (int(m.group(2)), int(m.group(1))) if m else None

    def check_model(self, module, cfg=None, workers=2, **kw):
        """Model check (in the background) a design; a counterexample is a machinery failure: the
        specification alone decides it, not the code."""
        def job():
            t = time.time()
            rc, out = self.tlc(module, cfg, workers=workers, **kw)
            c = self.counts(out)
            if rc != 0 or c is None:
                raise Machinery(f'TLC rejects the model {module} {cfg or ""}: ' + out[-3000:])
            self.mc.append(dict(model=os.path.basename(cfg or module).replace('.cfg', ''), states=c[0], transitions=c[1],
                                seconds=round(time.time() - t, 1)))
        f = self.pool.submit(job)
        self._pending.append(f)
        return f

    def expect_reject(self, module, cfg, workers=2, **kw):
        """A model with a planted defect has to be rejected (guards against vacuous invariants)."""
        def job():
            rc, out = self.tlc(module, cfg, workers=workers, **kw)
            if rc == 0 or 'is violated' not in out:
                raise Machinery(f'TLC does not reject {cfg}: ' + out[-2000:])
            self.extra.setdefault('defective_models_rejected', []).append(os.path.basename(cfg).replace('.cfg', ''))
        f = self.pool.submit(job)
        self._pending.append(f)
        return f

    # ---- traces
    def validate(self, module, traces, clauses=None, label='', parallel=8, timeout=None, cost=None):
        """traces: list of lists of events (each list is one behaviour recorded from the code).
        TLC validates all of them with the trace specification `module`; it prints a line
        CLAUSE <line> <name> for each clause that an event violates.  Clauses that do not
        belong to the property (not in `clauses`) are ignored."""
        traces = [t for t in traces if t]
        if not traces: return
        n = min(parallel, len(traces))
        def size(t):          # larger data cost more
            f = 1; c = 0
            for e in t:
                if e.get('ev') == 'Case': n = len(e['d']['f']) + sum(map(len, e['d']['g'])); f = max(1, (n / 10) ** 2)
                c += f * e.get('_w', 1)
            return c
        cost = cost or size
        bins = [[0, []] for _ in range(n)]
        for k in sorted(range(len(traces)), key=lambda k: -cost(traces[k])):
            b = min(bins, key=lambda b: b[0]); b[0] += cost(traces[k]); b[1].append(k)
        def job(ks):
            fd, path = tempfile.mkstemp(suffix='.ndjson', dir=self.tmp)
            where = []
            with os.fdopen(fd, 'w') as fh:
                for k in ks:
                    for j, e in enumerate(traces[k]):
                        where.append((k, j))
                        fh.write(json.dumps({a: b for a, b in e.items() if not a.startswith('_')}) + '\n')
            rc, out = self.tlc(module, env={'TRACE': path}, timeout=timeout)
            m = re.search(r'CONSUMED (\d+) of (\d+)', out)
            if rc != 0 or not m or m.group(1) != m.group(2) or int(m.group(2)) != len(where):
                if 'Error: ' in out and 'OutOfMemory' not in out and 'StackOverflow' not in out and ks:
                    # the values that were recorded do not even have the shape that the specification needs
                    l = max([0] + [int(x) for x in re.findall(r'/?\\ l = (\d+)', out)] + [int(x) for x in re.findall(r'AT (\d+)"', out)])
                    if l: return [(*where[min(l, len(where)) - 1], 'evaluation-error')], self.counts(out), out
                raise Machinery(f'{module} did not consume a trace ({rc}): ' + out[-3000:])
            res = []
            for a, name in re.findall(r'CLAUSE (\d+) (\S+?)"', out):
                res.append((*where[int(a) - 1], name))
            os.unlink(path)
            c = self.counts(out)
            return res, c, ''
        st = tr = 0
        for res, c, err in self.pool.map(job, [b[1] for b in bins if b[1]]):
            if c: st += c[0]; tr += c[1]
            for k, j, name in res:
                if name != 'evaluation-error' and clauses is not None and not any(re.fullmatch(p, name) for p in clauses): continue
                e = traces[k][j]
                self.violation(f'{name}', f'{label or module}: the specification rejects event {j} ({e.get("ev")}) of trace {k}: clause {name}' + err[-1500:],
                               dict(module=module, clause=name, event=j, trace=traces[k][:j + 1]), key=e.get('_key'))
        self.traces += len(traces); self.events += sum(map(len, traces))
        self.mc.append(dict(model=f'{module} (recorded traces{": " + label if label else ""})', states=st, transitions=tr))
        if len(self.samples) < 6:
            for t in traces[:2]:
                s = json.dumps([{a: b for a, b in e.items() if not a.startswith('_')} for e in t[:3]])
                self.samples.append(s if len(s) < 1500 else s[:1500] + '...')

    def violation(self, name, text, replay=None, key=None):
        self.viol.append((key or name, text, replay))

    # ---- end
    def finish(self):
        for f in self._pending:
            try: f.result()
            except Machinery:
                if not self.viol: raise
        self.pool.shutdown()
        known = [k for k in load_known() if k['property'] == self.prop]
        left = []
        hits = {}
        for key, text, rep in self.viol:
            k = next((k for k in known if k['status'] == 'known' and k['key'] == key), None)
            if k: hits[k['key']] = k
            else: left.append((key, text, rep))
        for k in hits.values():
            print(f'KNOWN-FINDING: property={self.prop} {k["what"]}')
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=LEVELS.get(self.prop, 'model_checking'),
                  coverage=dict(states=sum(m['states'] for m in self.mc), transitions=sum(m['transitions'] for m in self.mc),
                                traces_validated_against_impl=self.traces, events_validated=self.events,
                                samples=self.samples or ['none'], models=self.mc, **self.extra),
                  assumptions=self.notes, wall_s=round(time.time() - self.t0, 2), violations=len(left))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        if left:
            d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f'{self.prop}.json')
            with open(path, 'w') as fh:
                json.dump([dict(key=str(k), what=t, replay=r) for k, t, r in left[:20]], fh, indent=1, default=str)
            seen = set()
            for k, t, _ in left:
                if k in seen or len(seen) > 8: continue
                seen.add(k); print('  ' + t)
            print(f'VIOLATION property={self.prop} replay={path}')
            return 1
        m = ev['coverage']
        print(f'OK property={self.prop} tier={self.tier} states={m["states"]} transitions={m["transitions"]} '
              f'traces={self.traces} events={self.events} wall={ev["wall_s"]}s')
        return 0


LEVELS = {}


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def in_repo(tb):
    return any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep) for f in traceback.extract_tb(tb))


def show(prop, nmax=5, width=1500):
    """Print what a check reported last (for people)."""
    for v in json.load(open(os.path.join(VERIF, 'evidence', 'replay', f'{prop}.json')))[:nmax]:
        t = v['replay']
        if isinstance(t, str): print(v['what'], t[-width:]); continue
        tr = t['trace']; e = dict(tr[-1])
        cs = [x for x in tr if x['ev'] == 'Case']
        print('--', v['what'], '| c =', cs[-1]['c'] if cs else None, '| d =', {k: x for k, x in cs[-1]['d'].items() if k in ('ksf', 'ksg', 'mask', 'x')} if cs else None)
        print('   ', e.pop('_txt', ''), json.dumps(e)[:width])
