"""Executes histories of calls (behaviours of MC_Lifecycle, and random ones) with the code under
test and records them for LifeTrace."""
import copy
import hashlib, json, re
import numpy as np
import vf
from vf import S, call, quiet
import gpgen as G

ROWS = ['hp_beta_all', 'hp_theta_all', 'hp_kernel_all', 'hp_varK_all', 'hp_var_fval_all', 'hp_var_fgrad_all', 'min_nugget_all', 'Kcov_cond_all',
        'Kcov_cond_at_max_all', 'eta_Kbase_all', 'eta_Kgrad_all', 'vmin_init_all', 'vmin_req_grad_all', 'xvec_rescaling_all', 'hp_optz_success',
        'hp_optz_iter_mean', 'hp_optz_iter_max', 'hp_optz_con_good', 'optz_n_cho_fail_all', 'optz_n_cond2big_all', 'optz_max_init_cond_all',
        'time_pick_hp0_all', 'time_hp_optz_all', 'time_chofac_all', 'var_fval', 'varK_var_fval']
INFO = ['hp_optz_success', 'hp_optz_iter_mean', 'hp_optz_iter_max', 'hp_optz_con_good', 'optz_n_cho_fail', 'optz_n_cond2big', 'optz_max_init_cond']
INFO_AT = INFO[:4] + [k + '_all' for k in INFO[4:]]


# ---- behaviours of the model
def edges(out):
    """Transitions that the configuration MC_LifecycleTour prints: (state, action, state)."""
    ids = {}; E = []
    def sid(s):
        k = json.dumps(s, sort_keys=True)
        return ids.setdefault(k, len(ids))
    for m in re.finditer(r'^"(\[.*\])"$', out, re.M):
        a, act, b = json.loads(m.group(1).replace('\\"', '"'))
        E.append((sid(a), (act['name'], act['k'], act['out']), sid(b)))
    return E


def walks(E, rng, length, limit=None, start=None):
    """Behaviours from the initial state that together contain all transitions (or `limit` of them)."""
    succ = {}
    for a, act, b in E: succ.setdefault(a, []).append((act, b))
    init = start if start is not None else E[0][0]
    todo = {a: list(range(len(v))) for a, v in succ.items()}
    for v in todo.values(): rng.shuffle(v)
    left = sum(map(len, todo.values())); done = 0
    W = []
    while left and (limit is None or done < limit):
        w = []; s = init
        while len(w) < length and left:
            if todo.get(s):
                k = todo[s].pop(); left -= 1
                act, s2 = succ[s][k]; w.append(act); s = s2; done += 1
                continue
            # nearest state with a transition that was not taken
            prev = {s: None}; q = [s]; goal = None
            for u in q:
                if todo.get(u): goal = u; break
                for act, b in succ.get(u, ()):
                    if b not in prev: prev[b] = (u, act); q.append(b)
            if goal is None: break
            path = []
            while prev[goal] is not None: path.append((prev[goal][1], goal)); goal = prev[goal][0]
            if len(w) + len(path) > length and w: break
            for act, b in reversed(path): w.append(act); s = b
        W.append(w)
        if limit is not None and done >= limit: break
    return W


# ---- the executor
def hprec(h):
    if h is None: return 'none'
    r = G.hprec(h)
    if r['alpha'] == 'nan': r['alpha'] = 'none'
    return r


def rows_digest(gp, n):
    out = []
    for i in range(n):
        m = hashlib.sha1()
        for a in ROWS: m.update(np.ascontiguousarray(np.asarray(getattr(gp, a)[i], dtype=float)).tobytes())
        out.append(m.hexdigest()[:16])
    return out


def row_now(gp, i):
    f = lambda a: S(float(np.asarray(getattr(gp, a)[i], dtype=float)))
    return dict(theta=S(gp.hp_theta_all[i]), beta=S(gp.hp_beta_all[i]), alpha=f('hp_kernel_all'), varK=f('hp_varK_all'), vf=f('hp_var_fval_all'), vg=f('hp_var_fgrad_all'),
                xs=S(gp.xvec_rescaling_all[i]), etab=f('eta_Kbase_all'), etag=f('eta_Kgrad_all'), eta=f('min_nugget_all'), vmin=f('vmin_init_all'), vreq=f('vmin_req_grad_all'),
                cond=f('Kcov_cond_all'), atmax=bool(gp.Kcov_cond_at_max_all[i]), var=f('var_fval'), varratio=f('varK_var_fval'),
                times=[f('time_hp_optz_all'), f('time_chofac_all'), f('time_pick_hp0_all')], info=[f(a) for a in INFO_AT])


class Life:
    """One object with its history of calls.  pool: data; hps: functions that make fresh hyperparameters."""
    def __init__(self, tmp, rng, c, pool, slots=2):
        self.tmp, self.rng, self.c, self.pool, self.slots = tmp, rng, dict(c, condmax=c['target']), pool, slots
        self.gp = self.new()
        with quiet(): self.gp.init_optz_surr(slots)
        self.k = None; self.handed = []; self.results = []; self.hpobj = []
        self.tr = [dict(ev='Life', c=self.c, pool=[d.rec() for d in pool], slots=slots, dg=rows_digest(self.gp, slots))]
        self.refs = {}
        anyf = any(d.sf is None for d in pool); anyg = c['ug'] and any(d.sg is None for d in pool)
        sc = 100.0 if c['wc'] in G.SCALED else 1.0
        self.hps = []
        for j in range(3):
            v = dict(theta=np.exp(rng.uniform(-.5, 1, c['dim'])) * (.05 if sc > 1 else 1), beta=float(rng.uniform(-1, 1)) * sc ** .5, varK=float(rng.uniform(.5, 3)) * sc ** 2,
                     alpha=float(rng.uniform(.7, 3)) if c['kern'] == 'RatQu' else None,
                     vf=float(rng.uniform(.01, .05)) * sc ** 2 if anyf else None, vg=float(rng.uniform(.01, .05)) * sc ** 2 if anyg else None)
            self.hps.append(v)
        lo = np.min([d.x.min(0) for d in pool], 0); hi = np.max([d.x.max(0) for d in pool], 0)
        self.pts = rng.uniform(lo - .1, hi + .1, (3, c['dim']))

    def new(self):
        gp = G.mkgp(self.c, self.tmp)
        gp.cond_max = float(self.c['condmax']); gp.optz_iter_max = 3; gp.lkd_hp_best_n_eval = 3; gp.optz_n_x0 = 2
        gp.lkd_optz_start_mtd = self.c.get('start', 'hp_best'); gp.hp_lhs_bound_factor = 10.0; gp.hp_box_bound_factor = 20.0
        gp.hp_theta_init = .05 if self.c['wc'] in G.SCALED else 1.0; gp.cond_vreq_max_iter = 2
        gp.hp_var_fval_init = gp.hp_var_fgrad_init = .01
        if self.c['kern'] == 'RatQu': gp.hp_kernel_init = 1.0
        # the constraint on the condition number was made with the class default
        gp.set_wellcond_mtd(self.c['wc']); gp.cond_eta_is_const = self.c['etaconst']
        return gp

    def hp(self, j):
        """Fresh objects: a usable set of hyperparameters (j > 0), or one that cannot be used with any data (j = 0)"""
        v = dict(self.hps[(j - 1) % len(self.hps)]) if j else dict(self.hps[int(self.rng.integers(3))])
        gp = self.gp
        beta = np.array([v['beta']])
        theta = np.array(v['theta'])
        if j == 0:
            o = int(self.rng.integers(3))
            if o == 0: theta = theta.copy(); theta[int(self.rng.integers(theta.size))] = np.nan
            elif o == 1: beta = np.array([0.1, 0.2])
            elif o == 2:
                if v['vf'] is not None and all(d.sf is None for d in self.pool): v['vf'] = None
                elif v['vg'] is not None and all(d.sg is None for d in self.pool): v['vg'] = None
                else: theta = theta * np.nan
        return gp.make_hp_class(beta, theta, v['alpha'], v['varK'], v['vf'], v['vg'])

    def add(self, ev, out, **k):
        gp = self.gp
        e = dict(ev=ev, out=out, exp='none', hp=hprec(getattr(gp, 'hp_vals', None)), xs=S(gp.DataScl.xvec_scale) if gp.b_use_data_scl and hasattr(gp, 'DataScl') else 'none',
                 dg=rows_digest(gp, self.slots))
        e.update(k); self.tr.append(e)
        return e

    # calls
    def SetData(self, k):
        d = self.pool[k - 1]
        a = d.args(own=True); old = self.handed[-1] if self.handed else None
        same = lambda u, v: (u is None) == (v is None) and (u is None or (u.shape == v.shape and u.dtype == v.dtype))
        if old is not None and self.rng.random() < .5:             # the caller fills the arrays that it handed over, and gives them again
            for n in a:
                if a[n] is not None and same(a[n], old[n]):
                    old[n].setflags(write=True); np.copyto(old[n], a[n]); a[n] = old[n]
        o, _, t = call(lambda: self.gp.set_data(**a))
        if o == 'ok': self.k = k; self.handed.append(a)
        return self.add('SetData', o, k=k, _txt=t)

    def SetDataBad(self, kind):
        o, _, t = call(lambda: self.gp.set_data(**malformed(self.rng, self.c, self.pool[int(self.rng.integers(len(self.pool)))])))
        return self.add('Refused', o, _txt=t)

    def SetHp(self, j):
        h = self.hp(j); r = hprec(h); self.hpobj.append(h)
        o, _, t = call(lambda: self.gp.set_hpara('set', 1, hp_vals=h))
        return self.add('SetHp', o, h=r, _txt=t)

    def CustomHp(self, j):
        h = self.hp(j)
        o, _, t = call(lambda: self.gp.set_custom_hp(h.beta, h.theta, h.kernel, h.varK, h.var_fval, h.var_fgrad))
        return self.add('CustomHp', o, h=hprec(h), _txt=t)

    def MutHp(self, j):
        """The caller changes the hyperparameters that it handed over, in place."""
        h = self.gp.hp_vals if getattr(self.gp, 'hp_vals', None) is not None else None
        if h is None: return None
        q = self.hp(j); f = int(self.rng.integers(4))
        if f == 0 and h.theta is not None and np.size(h.theta) == q.theta.size: h.theta[...] = q.theta
        elif f == 1: h.varK = q.varK
        elif f == 2 and np.size(h.beta) == 1: h.beta[...] = q.beta
        else: h.theta = np.array(q.theta)
        return self.add('MutHp', 'ok', h=hprec(h))

    def Nudge(self):
        """One hyperparameter changes, by little."""
        h = getattr(self.gp, 'hp_vals', None)
        if h is None: return None
        q = 1 + float(self.rng.choice([1, -1])) * 10.0 ** -float(self.rng.integers(2, 13))
        names = [a for a in ('theta', 'beta', 'varK', 'kernel', 'var_fval', 'var_fgrad') if getattr(h, a) is not None and np.all(np.isfinite(getattr(h, a)))]
        if not names: return None
        a = names[int(self.rng.integers(len(names)))]; v = getattr(h, a)
        if isinstance(v, np.ndarray) and v.ndim and v.dtype.kind == 'f':
            k = int(self.rng.integers(v.size))
            if self.rng.random() < .5: v.flat[k] *= q
            else: v = np.array(v); v.flat[k] *= q; setattr(h, a, v)
        else: setattr(h, a, v * q)
        return self.add('MutHp', 'ok', h=hprec(h))

    def Mutate(self, _=0):
        r = self.rng
        for a in self.handed:
            for v in a.values():
                if v is not None: v.setflags(write=True); v[...] = (~v if v.dtype == bool else v * 2 + 1)
        for v in self.results: v[...] = 7.5
        for h in self.hpobj:
            if h is not getattr(self.gp, 'hp_vals', None):
                if h.theta is not getattr(getattr(self.gp, 'hp_vals', None), 'theta', None): h.theta[...] = 123.0
                if h.beta is not getattr(getattr(self.gp, 'hp_vals', None), 'beta', None): h.beta[...] = -55.0
                h.varK = 17.0
        self.handed, self.results, self.hpobj = [], [], []
        return self.add('Mutate', 'ok')

    def Query(self, _=0):
        """Calls that only calculate: about other hyperparameters, other data, other points."""
        gp, rng = self.gp, self.rng
        h = other = self.hp(int(rng.integers(1, 4))); d = self.pool[int(rng.integers(len(self.pool)))]
        if rng.random() < .4 and getattr(gp, 'hp_vals', None) is not None: h = gp.hp_vals       # or those in force
        def vec():
            b = gp.hp_info_optz_lkd.bvec_log_optz
            return np.where(b, rng.uniform(-1.5, .5, b.size), rng.uniform(.1, 2, b.size))
        def mean():
            with quiet(): q = self.new()
            q.set_data(**d.args()); q.set_hpara('set', 1, hp_vals=other)
            gp.calc_model_mean_w_data_init(np.array(self.pts), q.KernEta_chofac, other.beta, d.x, d.f, d.g, other.theta, bool(rng.random() < .5))
        R = lambda: gp.get_scl_x_w_dist()[1]
        qs = [lambda: gp.calc_lkd_all(h, calc_cond=bool(rng.random() < .5)), lambda: gp.calc_lkd_all(h, calc_grad=True), lambda: gp.calc_all_K_w_chofac(R(), h, calc_cond=True),
              lambda: gp.calc_Kern_w_chofac(R(), h), lambda: (gp.return_optz_val(vec()), gp.return_optz_grad(vec())), lambda: gp.calc_store_likelihood(vec(), True),
              lambda: gp.optz_closed_form_hp(other), lambda: gp.get_txt_info_surr(False, False), lambda: gp.load_data_surr(gp.export_data_surr(save2file=False)), mean,
              lambda: gp.hp_vec2dataclass(gp.hp_info_optz_lkd, vec()), lambda: (gp.x_init_2_scl(d.x), gp.x_scl_2_init(d.x)), lambda: gp.data_init_2_scl(d.f, d.f, d.g),
              lambda: gp.calc_nugget(int(rng.integers(1, 30))), lambda: gp.calc_noise_vec(h), lambda: gp.calc_mtd_rescale_origin_vreq(int(rng.integers(2, 30))),
              lambda: gp.get_init_hp_vals(), lambda: gp.get_hp_bounds(gp.hp_info_optz_lkd), lambda: gp.calc_KernGrad_hp(gp.hp_info_optz_lkd, h, R()),
              lambda: gp.eval_mean_fun(np.array(self.pts), h.beta, True, True), lambda: gp.calc_vand(d.x, True, True)]
        for k in rng.integers(0, len(qs), 2): call(qs[int(k)])
        return self.add('Query', 'ok')

    def Current(self, i):
        o, _, t = call(lambda: self.gp.set_hpara('current', i))
        return self.add('Current', o, i=i, _txt=t)

    def Stored(self, i):
        o, _, t = call(lambda: self.gp.set_hpara('stored', i))
        return self.add('Stored', o, i=i, _txt=t)

    def Optz(self, i):
        o, _, t = call(lambda: self.gp.set_hpara('optz', i))
        return self.add('Optz', o, i=i, row=row_now(self.gp, i), _txt=t)

    # the factorization fails: every one, or some of them
    def FaultHp(self, j):
        h = self.hp(j); r = hprec(h); self.hpobj.append(h)
        with G.no_cholesky(): o, _, t = call(lambda: self.gp.set_hpara('set', 1, hp_vals=h))
        return self.add('FaultHp', o, h=r, _txt=t)

    def FaultStored(self, i):
        with G.no_cholesky(): o, _, t = call(lambda: self.gp.set_hpara('stored', i))
        return self.add('FaultStored', o, i=i, _txt=t)

    def FaultOptz(self, i):
        rng = self.rng; k = int(rng.integers(4)); a = int(rng.integers(1, 40)); p = float(rng.uniform(.1, .5)); q = np.random.default_rng(int(rng.integers(2 ** 31)))
        f = [lambda n: True, lambda n: n >= a, lambda n: n <= a, lambda n: q.random() < p][k]
        with G.no_cholesky(f): o, _, t = call(lambda: self.gp.set_hpara('optz', i))
        return self.add('FaultOptz', o, i=i, row=row_now(self.gp, i), _txt=t)

    def Store(self, ih):
        i, j = ih // 100, ih % 100
        h = self.hp(j); r = hprec(h); self.hpobj.append(h)
        rng = self.rng
        info = {k: float(rng.uniform(0, 50)) for k in INFO}
        info['optz_n_cho_fail'] = float(rng.integers(0, 5))
        if rng.random() < .2: info = {k: info[k] for k in INFO[4:]}
        if rng.random() < .2: info = None
        cond = float(rng.choice([1.0, 50.0, .5 * float(self.c['condmax']), .995 * float(self.c['condmax']), 3 * float(self.c['condmax']), np.nan]))
        t = [float(x) for x in rng.uniform(0, 9, 3)]
        o, _, txt = call(lambda: self.gp.store_new_para_surr(i, h, info, cond, time_hp_optz=t[0], time_chofac=t[1], time_pick_hp0=t[2]))
        return self.add('Store', o, i=i, h=r, cond=S(cond), times=S(t), info=[S(info[k]) if info and k in info else 'none' for k in INFO], row=row_now(self.gp, i), _txt=txt)

    def ref(self, key, how):
        """What a fresh object says."""
        kk = json.dumps([key, how])
        if kk not in self.refs:
            def f():
                gp = self.new(); d = self.pool[key[0] - 1]
                gp.set_data(**d.args())
                if key[2] != 'none' and gp.b_use_data_scl: gp.DataScl.set_xscale_data(xvec_scale_in=np.array([float(v) for v in key[2]]))
                h = key[1]; fl = lambda v: None if v == 'none' else float(v)
                gp.set_hpara('set', 1, hp_vals=gp.make_hp_class(np.array([float(v) for v in h['beta']]), np.array([float(v) for v in h['theta']]), fl(h['alpha']), fl(h['varK']), fl(h['vf']), fl(h['vg'])))
                return self._eval(gp, how)
            self.refs[kk] = call(f)[:2]
        return self.refs[kk]

    def _eval(self, gp, how):
        fn, grad, hess = how
        X = np.array(self.pts[:1] if hess else self.pts)
        r = gp.eval_model(X, calc_grad=grad, calc_hess=hess) if fn == 'm' else gp.eval_model_var(X, calc_grad=grad)
        self._last = [v for v in r if isinstance(v, np.ndarray)]
        return [S(v) for v in r if v is not None]

    def Eval(self, kind):
        gp = self.gp; rng = self.rng
        if kind == 2:
            P = np.array(self.pts)
            f = [lambda: gp.eval_model(P[None]), lambda: gp.eval_model(P, calc_hess=True), lambda: gp.eval_model(P, squeeze_nx=True),
                 lambda: gp.eval_model_var(P[None]), lambda: gp.eval_model_var(P, squeeze_nx=True)][int(rng.integers(5))]
            o, _, t = call(f)
            return self.add('Eval', o, bad=True, key=[], res=[], ref=[], refout='ok', floor='0', _txt=t)
        how = ('m' if gp.b_use_data_scl or rng.random() < .7 else 'v', kind == 1, kind == 1 and rng.random() < .3)
        if how[0] == 'v': how = ('v', kind == 1, False)
        self._last = []
        o, v, t = call(lambda: self._eval(gp, how))
        if o == 'ok': self.results += self._last
        xs = S(gp.DataScl.xvec_scale) if gp.b_use_data_scl and hasattr(gp, 'DataScl') else ['1.0'] * self.c['dim']
        key = [self.k or 0, hprec(getattr(gp, 'hp_vals', None)), xs]
        e = dict(bad=False, key=key, res=v if o == 'ok' else [], ref=[], refout='ok', floor='1e-6', _txt=t)
        if o == 'ok':
            e['refout'], rv = self.ref(key, how); e['ref'] = rv if e['refout'] == 'ok' else []
        return self.add('Eval', o, **e)

    def run(self, w):
        """A behaviour of MC_Lifecycle."""
        for name, k, out in w:
            e = getattr(self, name)(k)
            if e is not None: e['exp'] = out
        return self.tr

    def random(self, steps):
        rng = self.rng
        for _ in range(steps):
            u = rng.random()
            last = self.tr[-1]
            if self.k is not None and last['ev'] in ('SetData', 'Eval') and last.get('out') == 'exc' and not last.get('bad') or last['ev'] == 'SetData':
                # most histories go on with a model that can be evaluated
                if rng.random() < .6: u = float(rng.choice([.2, .2, .5, .55]))
            elif last['ev'] == 'SetHp' and rng.random() < .25: self.Query(); u = .9
            elif 'rescale' in self.c['wc'] and last['ev'] == 'Eval' and last['out'] == 'ok' and rng.random() < .15:
                self.FaultOptz(0); u = .9         # an optimization that fails after it changed the scaling, then an evaluation
            if self.k is None or u < .12: self.SetData(int(rng.integers(1, len(self.pool) + 1)))
            elif u < .15: self.SetDataBad(0)
            elif u < .30: self.SetHp(0 if rng.random() < .12 else int(rng.integers(1, 4)))
            elif u < .36: self.CustomHp(int(rng.integers(1, 4)))
            elif u < .42: self.MutHp(int(rng.integers(1, 4))) if rng.random() < .5 else self.Nudge()
            elif u < .47: self.Mutate() if rng.random() < .6 else self.Query()
            elif u < .495: self.Current(int(rng.random() < .8))
            elif u < .51: self.FaultHp(int(rng.integers(1, 4)))
            elif u < .52: self.FaultStored(int(rng.integers(self.slots)))
            elif u < .60: self.Stored(int(rng.integers(self.slots)))
            elif u < .65:
                written = [i for i in range(self.slots) if self.tr[0]['dg'][i] != self.tr[-1]['dg'][i]]
                n = next((i for i in range(self.slots) if i not in written), self.slots - 1)
                (self.Optz if rng.random() < .75 else self.FaultOptz)(int(rng.integers(0, n + 1)) if rng.random() < .9 else int(rng.integers(self.slots)))
            elif u < .72: self.Store(int(rng.integers(self.slots)) * 100 + int(rng.integers(1, 4)))
            else: self.Eval(int(rng.choice([0, 1, 1, 2])))
        return self.tr


def malformed(rng, c, d):
    """Arguments of set_data that do not fit together."""
    a = {n: None if v is None else np.array(v, copy=True) for n, v in d.args().items()}
    n = a['fval'].size
    o = [lambda: a.update(fval=np.append(a['fval'], 1.0)), lambda: a.update(x_eval=a['x_eval'][:, :, None]), lambda: a.update(x_eval=np.hstack((a['x_eval'], a['x_eval']))),
         lambda: a.update(std_fval=np.zeros(n + 1)), lambda: a.update(x_eval=np.vstack((a['x_eval'], a['x_eval'] + 1)))]
    if c['ug']:
        o += [lambda: a.update(grad=None), lambda: a.update(grad=np.vstack((a['grad'], a['grad']))), lambda: a.update(grad=np.hstack((a['grad'], a['grad']))),
              lambda: a.update(std_grad=np.zeros((a['grad'].shape[0] + 1, c['dim']))), lambda: a.update(std_grad=np.zeros(a['grad'].shape[0])), lambda: a.update(bvec_use_grad=np.ones(n + 1, bool)),
              lambda: a.update(bvec_use_grad=np.zeros(n, bool))]
    else: o += [lambda: a.update(grad=np.zeros((n, c['dim']))), lambda: a.update(bvec_use_grad=np.ones(n, bool))]
    o[int(rng.integers(len(o)))]()
    return a


# ---- pools and scenarios
KINDS = ['fresh', 'fresh', 'size', 'samex', 'samef', 'middle', 'middle', 'first', 'grads', 'noise', 'values', 'order', 'append', 'drop', 'mask']


def pool(rng, c, n=2, mixed=False, nmax=4):
    """Data sets of which each is related to an earlier one: another size, the same points, the same values, one other point, other gradients, ..."""
    noises = ['zz', 'kk', 'uz', 'zu', 'uu', 'kz', 'zk']
    noise = lambda: noises[int(rng.integers(len(noises)))] if c['ug'] else ['zz', 'kz', 'uz'][int(rng.integers(3))]
    nz = noise()
    mk = lambda m, z: G.data(rng, c, m, z, G.some_mask(rng, m) if c['ug'] and m > 1 and rng.random() < .25 else None)
    out = [mk(int(rng.integers(2, nmax + 1)), nz)]; zs = [nz]
    while len(out) < n:
        i = int(rng.integers(len(out))); b = out[i]; m = b.f.size; z = noise() if mixed else nz; d = None
        kind = KINDS[int(rng.integers(len(KINDS)))]
        if kind == 'size': d = mk(int(rng.integers(1 if mixed else 2, nmax + 1)), z)
        elif kind in ('samex', 'samef') and m > 0:
            d = G.data(rng, c, m, z, b.mask)
            if kind == 'samex': d.x = b.x.copy()
            else: d.f = b.f.copy()
        elif kind in ('middle', 'first', 'grads', 'noise', 'values', 'order', 'append', 'drop', 'mask'):
            z = zs[i]; d = copy.deepcopy(b); e = G.data(rng, c, m, z, b.mask); ig = np.arange(m) if d.mask is None else np.flatnonzero(d.mask)
            if kind == 'middle':
                if m < 3: continue
                j = int(rng.integers(1, m - 1)); d.x[j] = np.round(d.x[j] + .3 * rng.choice([-1, 1], c['dim']), 6)
            elif kind == 'first': d.x[0] = np.round(d.x[0] + .3 * rng.choice([-1, 1], c['dim']), 6)
            elif kind == 'grads':
                if not c['ug']: continue
                d.g = e.g
            elif kind == 'noise': d.sf, d.sg = e.sf, e.sg
            elif kind == 'values': d.f[int(rng.integers(m))] += .5
            else:
                if kind == 'append':
                    if m >= nmax: continue
                    e1 = G.data(rng, c, 1, z, None)
                    cat = lambda u, v: None if u is None else np.concatenate((u, v))
                    d.x, d.f, d.sf = cat(d.x, e1.x + 1.5), cat(d.f, e1.f), cat(d.sf, e1.sf)
                    if c['ug']:
                        d.g, d.sg = cat(d.g, e1.g), cat(d.sg, e1.sg)
                        if d.mask is not None: d.mask = np.append(d.mask, True)
                elif kind == 'mask':
                    if not c['ug'] or m < 2: continue
                    new = G.some_mask(rng, m); full = G.data(rng, c, m, z, None)
                    full.x, full.f, full.sf = d.x, d.f, d.sf
                    full.g[ig] = d.g
                    if d.sg is not None: full.sg[ig] = d.sg
                    d = full; d.mask = new; d.g = d.g[new]
                    if d.sg is not None: d.sg = d.sg[new]
                else:
                    p = rng.permutation(m) if kind == 'order' else np.delete(np.arange(m), int(rng.integers(m)))
                    if kind == 'drop' and m < 3: continue
                    gi = {int(k): j for j, k in enumerate(ig)}; q = [gi[int(k)] for k in p if int(k) in gi]
                    if c['ug'] and not q: continue
                    d.x, d.f, d.sf = d.x[p], d.f[p], None if d.sf is None else d.sf[p]
                    if c['ug']:
                        d.g, d.sg = d.g[q], None if d.sg is None else d.sg[q]
                        if d.mask is not None: d.mask = d.mask[p]
        if d is None: d = mk(m, z)
        out.append(d); zs.append(z)
    return out


CONFIGS = [(k, wc, ug) for k in G.KERNS for wc, ug in [('base', False), ('base', True), ('precon', True), ('rescale_origin', True), ('rescale_eta_vary', True), ('dflt_vmin', True), ('dflt_vmax', True)]]


def config(rng, j, scaled=None):
    cs = [x for x in CONFIGS if scaled is None or (x[1] in G.SCALED) == scaled]
    k, wc, ug = cs[j % len(cs)]
    return G.cfg(k, int(rng.integers(1, 3)), ug, wc, target='1e5', etaconst=wc != 'rescale_eta_vary', start='lhs' if rng.random() < .2 else 'hp_best')


BUGS = ['kept_with_new_data', 'hp_not_compared', 'kept_when_setup_fails', 'kept_when_scaling_changes', 'store_touches_others', 'scaling_not_restored']


def check(r, clauses, bugs, nwalks=60, nscaled=12, nrandom=40, label=''):
    """Model check the life cycle, execute behaviours of it and random histories with the code, and judge all of them."""
    import os
    spec = lambda f: os.path.join(vf.SPEC, f)
    r.check_model('MC_Lifecycle', spec('MC_LifecycleB.cfg'), workers=2)
    if r.thorough: r.check_model('MC_Lifecycle', spec('MC_Lifecycle.cfg'), workers=4)
    for b in bugs: r.expect_reject('MC_Lifecycle', spec(f'BAD_Lifecycle_{b}.cfg'))
    rng = r.rng('life')
    jobs = []
    ne = 0
    for scaled, cfg_ in ((False, 'MC_LifecycleTourB.cfg'), (True, 'MC_LifecycleTour.cfg')):
        rc, out = r.tlc('MC_Lifecycle', spec(cfg_), workers=1, mem='4g')
        if rc: raise vf.Machinery('tour: ' + out[-2000:])
        E = edges(out); rng2 = r.rng(f'tour{scaled}')
        limit = (nscaled if scaled else nwalks) * 120
        if r.thorough: limit = 40000 if scaled else None
        W = walks(E, rng2, 120, limit)
        ne += sum(map(len, W)); jobs += [(w, scaled) for w in W]
    seeds = [int(x) for x in rng.integers(1 << 62, size=len(jobs))]
    nr = nrandom * (8 if r.thorough else 1)
    todo = [(r.tmp, s, j, w, sc, None) for j, (s, (w, sc)) in enumerate(zip(seeds, jobs))]
    todo += [(r.tmp, int(s), j, None, None, 120) for j, s in enumerate(rng.integers(1 << 62, size=nr))]
    traces = vf.pmap(_one, todo)
    r.extra['behaviours_of_the_model_executed'] = len(jobs); r.extra['transitions_of_the_model_executed'] = ne
    r.extra['random_histories_executed'] = nr
    for part in range(0, len(traces), 400): r.validate('LifeTrace', traces[part:part + 400], clauses, label)


def _one(a):
    tmp, seed, j, w, scaled, steps = a
    rng = np.random.default_rng(seed)
    c = config(rng, j, scaled)
    if w is not None: return Life(tmp, rng, c, pool(rng, c)).run(w)
    nmax = 4 if j % 8 else 8 if c['ug'] else 14        # some histories of larger data
    return Life(tmp, rng, c, pool(rng, c, 4, True, nmax), 4).random(steps)
