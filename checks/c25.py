"""C25: surrogates are independent of each other and of the rest of the process."""
import decimal, gc, hashlib, locale, os, pickle, random, shutil, signal, sys, tempfile, threading, warnings
import numpy as np
import vf
from vf import S, call, quiet
import gpgen as G, life as L


def process():
    """The state of the process that a surrogate has no business with."""
    s = np.random.get_state()
    mpl = sys.modules.get('matplotlib')
    u = os.umask(0o22); os.umask(u)
    m = hashlib.sha1(repr((s[0], s[1].tobytes(), s[2:], random.getstate(), sorted(np.geterr().items()), np.geterrcall(), os.getcwd(), sorted(os.environ.items()),
                           sorted((k, str(v)) for k, v in np.get_printoptions().items()), sys.getrecursionlimit(), sys.path, [(a, str(getattr(b, 'pattern', b)), c, str(d), e) for a, b, c, d, e in warnings.filters],
                           u, gc.isenabled(), gc.get_threshold(), decimal.getcontext().prec, locale.setlocale(locale.LC_ALL), threading.active_count(), [signal.getsignal(k) for k in (signal.SIGINT, signal.SIGALRM, signal.SIGTERM)],
                           id(sys.stdin), sorted(map(str, mpl.rcParams.items())) if mpl else 0)).encode())
    return m.hexdigest()[:16]


def tree(d):
    out = {}
    for a, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(a, f)
            try: out[os.path.relpath(p, d)] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
            except OSError: pass
    return out


def item(v):
    """Text or a vector of numbers."""
    if v is None or isinstance(v, (bool, str, np.bool_)): return dict(s=str(v), v=[])
    if isinstance(v, (int, float, np.number)): return dict(s='', v=[S(float(v))])
    a = np.asarray(v)
    if a.dtype.kind in 'fiu': return dict(s=str(a.shape), v=[S(float(x)) for x in a.ravel()])
    if a.dtype.kind == 'b': return dict(s=str(a.tolist()), v=[])
    return dict(s='?', v=[])


def hpitems(h):
    return [item(None)] if h is None else [item(x) for x in (h.beta, h.theta, h.kernel, h.varK, h.var_fval, h.var_fgrad)]


class One:
    """One surrogate with its sequence of calls, all of which it determines itself (whatever others do)."""
    def __init__(self, where, seed, j):
        self.dir = where; os.makedirs(where, exist_ok=True)
        rng = np.random.default_rng(seed)
        self.c = L.config(rng, j)
        self.pool = L.pool(rng, self.c, 3)
        self.slots = 3; self.count = 0
        d = self.pool[0]
        sc = 100.0 if self.c['wc'] in G.SCALED else 1.0
        self.hps = [dict(theta=np.exp(rng.uniform(-.5, 1, self.c['dim'])) * (.05 if sc > 1 else 1), beta=float(rng.uniform(-1, 1)), varK=float(rng.uniform(.5, 3)) * sc ** 2,
                         alpha=float(rng.uniform(.7, 3)) if self.c['kern'] == 'RatQu' else None, vf=.02 * sc ** 2 if d.sf is None else None,
                         vg=.03 * sc ** 2 if self.c['ug'] and d.sg is None else None) for _ in range(2)]
        lo = np.min([q.x.min(0) for q in self.pool], 0); hi = np.max([q.x.max(0) for q in self.pool], 0)
        self.pts = rng.uniform(lo - .1, hi + .1, (2, self.c['dim']))
        self.opts = [dict(cond_max=float(10 ** rng.uniform(5, 9)), optz_n_x0=int(rng.integers(1, 3)), hp_lhs_bound_factor=float(rng.uniform(2, 9)), hp_theta_init=float(rng.uniform(.02, .5)),
                          hp_const_n_eval=int(rng.integers(1, 4)), lkd_varK_pnlt_use=bool(rng.random() < .5), lkd_use_adj_mtd=bool(rng.random() < .5),
                          hp_theta_range=np.array([1e-5, float(10 ** rng.uniform(1, 4))]), hp_varK_range=np.array([1e-8, float(10 ** rng.uniform(2, 6))]),
                          optz_log_hp_theta=bool(rng.random() < .8), hp_median_n_idx=int(rng.integers(1, 6)), cond_eta_is_const=bool(self.c['wc'] != 'rescale_eta_vary' and rng.random() < .7))
                     for _ in range(2)]

    def do(self, op):
        return getattr(self, op['name'])(op['k'])

    def New(self, k):
        c = self.c
        gp = self.gp = G.GP(c['dim'], c['ug'], c['kern'], c['wc'], path_data_surr=os.path.join(self.dir, 'surr'))
        names = sorted(a for t in type(gp).__mro__ for a, v in vars(t).items() if not a.startswith('_') and not callable(v) and not hasattr(v, '__get__'))
        out = [item(getattr(gp, a, None)) for a in names]
        gp.cond_max_target = gp.cond_max = 1e5
        gp.optz_iter_max = 3; gp.lkd_hp_best_n_eval = 3; gp.optz_n_x0 = 2
        gp.lkd_optz_start_mtd = c.get('start', 'hp_best'); gp.hp_lhs_bound_factor = 10.0; gp.hp_box_bound_factor = 20.0
        gp.hp_theta_init = .05 if c['wc'] in G.SCALED else 1.0; gp.cond_vreq_max_iter = 2; gp.hp_const_n_eval = 1
        gp.hp_var_fval_init = gp.hp_var_fgrad_init = .01; gp.cond_eta_is_const = c['etaconst']
        gp.set_wellcond_mtd(c['wc'])
        gp.init_optz_surr(self.slots)
        self.count = 0
        return out

    def Opt(self, k):
        for a, v in self.opts[k - 1].items(): setattr(self.gp, a, np.array(v) if isinstance(v, np.ndarray) else v)
        return []

    def Data(self, k):
        gp = self.gp
        gp.set_data(**self.pool[k - 1].args(own=True))
        x = gp.get_scl_x_w_dist()
        return [item(v) for v in (gp.n_eval, gp.n_grad, gp.known_eps_fval, x[0], x[1], *gp.get_init_eval_data())]

    def Hp(self, k):
        v = self.hps[k - 1]
        self.gp.set_hpara('set', 1, hp_vals=self.gp.make_hp_class(np.array([v['beta']]), np.array(v['theta']), v['alpha'], v['varK'], v['vf'], v['vg']))
        return []

    def Optz(self, k):
        gp = self.gp
        i = min(self.count, self.slots - 1); self.count += 1
        gp.set_hpara('optz', i)
        return hpitems(gp.hp_vals) + [item(getattr(gp, a)[i]) for a in L.ROWS if not a.startswith('time')]

    def Eval(self, k):
        return [item(v) for v in self.gp.eval_model(np.array(self.pts), calc_grad=True)[:4]]

    def Lkd(self, k):
        info, ok = self.gp.calc_lkd_all(self.gp.hp_vals, calc_cond=True, calc_grad=False)
        return [item(v) for v in (bool(ok), info.ln_lkd, info.cond, info.hp_beta, info.hp_varK)]

    # calls that only random histories have
    def Stored(self, k):
        self.gp.set_hpara('stored', k % self.slots)
        return hpitems(self.gp.hp_vals)

    def Store(self, k):
        v = self.hps[k % 2]
        self.gp.store_new_para_surr(k % self.slots, self.gp.make_hp_class(np.array([v['beta']]), np.array(v['theta']), v['alpha'], v['varK'], v['vf'], v['vg']), None, 10.0)
        return self.rows()

    def rows(self): return [item(np.asarray(getattr(self.gp, a), dtype=float)) for a in L.ROWS if not a.startswith('time')]

    def Save(self, k):
        self.gp.export_data_surr(); return []

    def Load(self, k):
        self.gp.load_data_surr(); return self.rows()

    def Vec(self, k):
        gp = self.gp
        x = np.array([.1 * (k + 1)] * gp.hp_info_optz_lkd.n_hp)
        v = [float(np.ravel(gp.return_optz_val(x))[0]), gp.return_optz_grad(x)]
        return [item(a) for a in v]

    def Tables(self, k):
        gp = self.gp
        gp.get_txt_info_surr()
        return [item(gp.info_surr_options(False).replace(self.dir, '')), item(gp.info_surr_theta(False))]

    def Bad(self, k):
        self.gp.set_data(**L.malformed(np.random.default_rng(k), self.c, self.pool[0]))
        return []



def seeds(o, base): return int(hashlib.sha256(f'{base}/{o}'.encode()).hexdigest()[:15], 16)


def forked(f):
    """f in a new process."""
    a, b = os.pipe(); pid = os.fork()
    if pid == 0:
        os.close(a)
        try: v = ('ok', f())
        except BaseException as e:
            import traceback
            v = ('exc', traceback.format_exc())
        with os.fdopen(b, 'wb') as fh: pickle.dump(v, fh)
        os._exit(0)
    os.close(b)
    with os.fdopen(a, 'rb') as fh: data = fh.read()
    os.waitpid(pid, 0)
    if not data: raise vf.CodeFailed('the process with the surrogates ended')
    o, v = pickle.loads(data)
    if o == 'exc': raise RuntimeError(v)
    return v


def alone(where, o, spec, ops):
    """The calls on one surrogate."""
    os.makedirs(where, exist_ok=True); os.chdir(where)
    g = One(os.path.join(where, f'obj{o}'), *spec); out = []; res = []
    for op in ops:
        q, v, t = call(lambda: g.do(op)); out.append(q); res.append(v if q == 'ok' else [])
    return out, res


def together(where, specs, script, tour):
    os.makedirs(where, exist_ok=True); os.chdir(where)
    np.random.seed(7); random.seed(7)
    gs = [One(os.path.join(where, f'obj{o + 1}'), *s) for o, s in enumerate(specs)]
    tr = []
    for o, op in script:
        np.random.random(); random.random()
        odd = len(tr) % 2        # settings of the process that are not those that anything would choose
        np.seterr(**{k: ('ignore', 'warn')[(q + odd) % 2] for q, k in enumerate(('divide', 'over', 'under', 'invalid'))}); np.set_printoptions(precision=6 + odd, linewidth=77 + odd)
        warnings.resetwarnings(); warnings.filterwarnings('ignore', message='(' * odd + '.*' + ')' * odd)
        g0 = process(); f0 = tree(where)
        q, v, t = call(lambda: gs[o - 1].do(op))
        f1 = tree(where)
        alien = sorted(f for f in set(f0) | set(f1) if f0.get(f) != f1.get(f) and not f.startswith(f'obj{o}/'))
        tr.append(dict(ev='Call', o=o, op=op, out=q, res=v if q == 'ok' else [], g0=g0, g1=process(), alien=alien, tour=tour, _txt=t))
    return tr


def scenario(tmp, base, n, script, tour, same):
    """specs: a seed of the data and settings and a number for the configuration.
    Everything differs (same = 0), equal configurations (1), also equal data (2), equal data and different configurations (3)."""
    d = tempfile.mkdtemp(prefix='iso_', dir=tmp)
    k = base % 1000
    like = [j for j, c in enumerate(L.CONFIGS) if c[2] == L.CONFIGS[k % len(L.CONFIGS)][2]]  # with or without gradients
    js = [k if same in (1, 2) else like[(k + 1 + 7 * o) % len(like)] if same == 3 else k + 5 * o for o in range(n)]
    specs = [(seeds(0 if same in (2, 3) else o, base), js[o]) for o in range(n)]
    ops = [[op for o, op in script if o == q + 1] for q in range(n)]
    tr = [dict(ev='Start', n=n)]
    for q in range(n):
        out, res = forked(lambda: alone(os.path.join(d, f'a{q}'), q + 1, specs[q], ops[q]))
        out2, res2 = forked(lambda: alone(os.path.join(d, f'b{q}'), q + 1, specs[q], ops[q])) if base % 4 == 0 else (out, res)
        tr.append(dict(ev='Alone', ops=ops[q], out=out, res=res, out2=out2, res2=res2))
    tr += forked(lambda: together(os.path.join(d, 't'), specs, script, tour))
    shutil.rmtree(d)
    return tr


RANDOM = ['Data'] * 4 + ['Hp'] * 3 + ['Optz'] * 3 + ['Eval'] * 7 + ['Lkd'] * 3 + ['Opt'] * 2 + ['Stored'] * 2 + ['Store'] * 2 + ['Save', 'Load', 'Vec', 'Vec', 'Tables', 'Bad', 'New']


def _one(a):
    tmp, seed, w = a
    rng = np.random.default_rng(seed)
    if w is not None:
        script = [(k // 10, dict(name=name, k=k % 10)) for name, k, _ in w]
        return scenario(tmp, seed, 2, script, True, seed % 4)
    n = int(rng.integers(2, 4)); script = []; born = set()
    for _ in range(45):
        o = int(rng.integers(1, n + 1))
        if o not in born: born.add(o); script.append((o, dict(name='New', k=0))); script.append((o, dict(name='Data', k=1))); continue
        nm = RANDOM[int(rng.integers(len(RANDOM)))]
        k = dict(Data=lambda: int(rng.integers(1, 4)), Hp=lambda: int(rng.integers(1, 3)), Opt=lambda: int(rng.integers(1, 3))).get(nm, lambda: int(rng.integers(0, 3)))()
        script.append((o, dict(name=nm, k=k)))
    n = max(o for o, _ in script)
    return scenario(tmp, seed, n, script, False, seed % 4)


def check(r):
    spec = lambda f: os.path.join(vf.SPEC, f + '.cfg')
    r.check_model('MC_Isolation', spec('MC_Isolation'))
    if r.thorough: r.check_model('MC_Isolation', spec('MC_IsolationL'), workers=4)
    for b in ('memo_on_class', 'options_on_class', 'random_state'): r.expect_reject('MC_Isolation', spec(f'BAD_Isolation_{b}'))
    rc, out = r.tlc('MC_Isolation', spec('MC_IsolationTour'), mem='4g')
    if rc: raise vf.Machinery('tour: ' + out[-2000:])
    W = L.walks(L.edges(out), r.rng('tour'), 90, None if r.thorough else 4500)
    rng = r.rng()
    todo = [(r.tmp, int(rng.integers(1 << 50)), w) for w in W]
    todo += [(r.tmp, int(rng.integers(1 << 50)), None) for _ in range(400 if r.thorough else 40)]
    tr = vf.pmap(_one, todo, procs=7)
    r.extra['behaviours_of_the_model_executed'] = len(W); r.extra['random_interleavings_executed'] = len(todo) - len(W)
    r.validate('IsoTrace', tr, None, 'several surrogates')
    r.notes.append('results equal to 1e-7 those of the same calls on one surrogate in a new process; two or three surrogates with equal or different configurations')
