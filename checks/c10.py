"""C10: the best feasible result of all starts is selected (scripted results of the optimizer)."""
import contextlib, inspect, json, os, re, sys
import numpy as np
import vf
from vf import S, call, quiet
import gpgen as G


@contextlib.contextmanager
def optimizer(f):
    """The optimizer that the code uses is replaced."""
    import scipy.optimize
    keep = []
    real = scipy.optimize.minimize
    sig = inspect.signature(real)
    def named(*a, **k):                                                        # whatever way the arguments are passed in
        b = sig.bind(*a, **k).arguments; x = np.array(b.pop('x0'), dtype=float).ravel(); fun = b.pop('fun')
        return f(fun, x, b)
    for m in [scipy.optimize] + [m for n, m in list(sys.modules.items()) if n.startswith('gpgradpy')]:
        if getattr(m, 'minimize', None) is real: keep.append(m); m.minimize = named
    try: yield
    finally:
        for m in keep: m.minimize = real


def limits(b):
    """Lower and upper bounds: an object `Bounds` or pairs."""
    if hasattr(b, 'lb'): return np.ravel(b.lb).astype(float), np.ravel(b.ub).astype(float)
    return (np.array([-np.inf if q[0] is None else q[0] for q in b], dtype=float), np.array([np.inf if q[1] is None else q[1] for q in b], dtype=float))


def value(f):
    """The objective from what the function returns (that may be followed by its gradient)."""
    return float(np.ravel(f[0] if isinstance(f, tuple) else f)[0])


class Pool:
    """A surrogate and vectors of hyperparameters in the four classes."""
    def __init__(self, rng, tmp, usecstr):
        self.rng, self.usecstr = rng, usecstr
        while not self.build(tmp): pass

    def build(self, tmp):
        rng = self.rng
        wc = ['base', 'dflt_vmin', 'rescale_origin'][int(rng.integers(3))] if self.usecstr else 'precon'
        # a small nugget, so that condition numbers differ
        self.c = c = G.cfg(G.KERNS[int(rng.integers(3))], int(rng.integers(1, 3)), True, wc, optalpha=True, etaset='dflt_eta', etadflt='1e-10', logth=bool(rng.random() < .7))
        noise = ['zz', 'zz', 'kk', 'uz', 'uu', 'ku'][int(rng.integers(6))]
        d = G.data(rng, c, int(rng.integers(2, 4)), noise, level=1e-4)
        gp = self.gp = G.mkgp(c, tmp); gp.init_optz_surr(2)
        if G.set_data(gp, d)[0] != 'ok': raise RuntimeError('data are refused')
        gp.cond_max_abs = 1e30
        inf = gp.hp_info_optz_lkd; n = inf.n_hp
        if not self.usecstr:
            self.box = None
        lo = np.full(n, -1.5); up = np.full(n, 1.0)
        self.lo = np.where(inf.bvec_log_optz, lo, 10. ** lo); self.up = np.where(inf.bvec_log_optz, up, 10. ** up)
        V = []
        for _ in range(60):
            v = np.array(rng.uniform(self.lo, self.up)); f, k = self.values(v)
            if np.isfinite(f) and np.isfinite(k): V.append((k, f, v))
        if len(V) < 30: return False
        V.sort(key=lambda t: t[0])
        K = [t[0] for t in V]
        kmax = V[len(V) // 2][0]                                             # of the class near
        cm = self.cond_max = kmax / 1.005
        low = [t for t in V if t[0] < .9 * cm]; big = [t for t in V if t[0] > 1.04 * cm]
        if len(low) < 3 or len(big) < 6: return False
        near = []
        for _ in range(12):                                                # vectors between a low and a big one with just the right condition number
            a, b = low[int(rng.integers(len(low)))][2], big[int(rng.integers(len(big)))][2]
            s0, s1 = 0., 1.
            for _ in range(60):
                s = (s0 + s1) / 2; k = self.values(a + s * (b - a))[1]
                if k < 1.0047 * cm: s0 = s
                elif k > 1.0053 * cm: s1 = s
                else: break
            v = a + s * (b - a); f, k = self.values(v)
            if 1.003 * cm < k < 1.007 * cm: near.append((k, f, v))
        if len(near) < 2: return False
        top = big[-1]; big = big[:-1]
        big = [t for t in big if t[0] < .95 * top[0]]
        if len(big) < 2: return False
        # the condition number of the failing one is above the absolute limit
        gp.cond_max_abs = (big[-1][0] * top[0]) ** .5
        gp.cond_max = cm
        gp.b_use_cond_cstr = self.usecstr if self.usecstr else gp.b_use_cond_cstr
        by = lambda L: sorted(L, key=lambda t: t[1])
        low, near, big = by(low), by(near), by(big)                        # best objective first
        pick = lambda L: [L[0], L[int(rng.integers(1, len(L)))]]
        self.vec = [t[2] for t in pick(low) + pick(near) + pick(big)] + [top[2]]
        if not self.usecstr:
            self.vec[-1] = low[1][2]                                         # no factorization fails by the condition number
        self.big = big; self.low = low
        self.val = [self.values(v) for v in self.vec]
        if self.usecstr and self.val[-1][0] < self.val[-1][1] * .999: return False
        return all(np.isfinite(v[0]) for v in self.val)

    def values(self, v):
        """Objective and condition number at a vector (by the functions that C12, C13 and C17 check)."""
        gp = self.gp
        with quiet():
            h = gp.hp_vec2dataclass(gp.hp_info_optz_lkd, v)
            try: L, good = gp.calc_lkd_all(h, calc_cond=self.usecstr)
            except Exception: return np.nan, np.nan
            k0 = gp.calc_all_K_w_chofac(gp.get_scl_x_w_dist()[1], h, calc_chofac=False, calc_cond=True)[4] if gp.b_has_noisy_data else \
                gp.calc_Kern_w_chofac(gp.get_scl_x_w_dist()[1], h, calc_chofac=False, calc_cond=True)[4]
            k = L.cond if self.usecstr else k0
        self.k0 = float(k0)
        return (float(-L.ln_lkd) if good else float(k)), float(k)

    def run(self, t):
        gp, rng = self.gp, self.rng
        from scipy.optimize import Bounds, OptimizeResult
        n = len(t['r']); st = [int(rng.integers(len(self.vec))) for _ in range(n)]
        x0 = np.array([self.vec[j] * (1 + 1e-9 * (q + 1) * (1 if self.vec[j][0] else 1)) for q, j in enumerate(st)])
        bounds = Bounds(self.lo - 1, self.up + 1)
        nit = [int(x) for x in rng.integers(1, 250, n)]
        rec = dict(ran=0, cstr=[], bounds=True)
        def fake(fun, x, kw):
            j = min(range(n), key=lambda j: np.abs(x0[j] - np.ravel(x)).max()); rec['ran'] += 1
            rec['cstr'] = kw.get('constraints', ()); b = kw.get('bounds')
            rec['bounds'] &= b is bounds or (b is not None and all(np.array_equal(q, w) for q, w in zip(limits(b), (bounds.lb, bounds.ub))))
            other = self.vec[int(rng.integers(len(self.vec)))]
            fun(np.array(x)); f = fun(np.array(self.vec[t['r'][j]['v'] - 1]))
            fun(np.array(other))                                               # the last point that was evaluated is another one
            return OptimizeResult(x=np.array(self.vec[t['r'][j]['v'] - 1]), fun=value(f), success=t['r'][j]['ok'], nit=nit[j], nfev=nit[j], message='scripted', status=0)
        arg = x0[0] if n == 1 and rng.random() < .3 else x0
        with optimizer(fake): o, v, txt = call(lambda: gp.optz_hp_max_lkd(arg, bounds))
        sv = [self.values(x) for x in x0]
        def good(x):
            with quiet(): return bool(gp.calc_lkd_all(gp.hp_vec2dataclass(gp.hp_info_optz_lkd, x), calc_cond=self.usecstr)[1])
        res = []
        for j in range(n):
            f, k = self.values(self.vec[t['r'][j]['v'] - 1])
            res.append(dict(x=S(self.vec[t['r'][j]['v'] - 1]), fun=S(f), cond=S(k), cond0=S(self.k0), ok=t['r'][j]['ok'], nit=S(nit[j])))
        e = dict(ev='Multi', out=o, usecstr=self.usecstr, max=S(gp.cond_max), res=res, starts=[dict(cond=S(s[1]), good=good(x)) for s, x in zip(sv, x0)],
                 best=[], cond='none', info={}, ran=rec['ran'], boundsok=bool(rec['bounds']), hascstr=False, nlc=[], _txt=txt)
        cs = rec['cstr']; cs = list(cs) if isinstance(cs, (list, tuple)) else [cs]
        e['hascstr'] = len(cs) > 0
        for x, (f, k) in zip(self.vec, self.val): e['nlc'].append(dict(cond=S(k), sat=satisfied(cs, x)))
        if o == 'ok':
            i = v[2]
            e.update(best=S(v[0]), cond=S(v[1]), info=dict(success=S(i['hp_optz_success']), itermean=S(i['hp_optz_iter_mean']), itermax=S(i['hp_optz_iter_max']),
                     congood=S(i['hp_optz_con_good']), chofail=S(i['optz_n_cho_fail']), cond2big=S(i['optz_n_cond2big']), maxcond=S(i['optz_max_init_cond'])))
        return e


def satisfied(cs, x):
    """Does x satisfy the constraints that were given to the optimizer?"""
    from scipy.optimize import NonlinearConstraint
    ok = True
    for c in cs:
        if isinstance(c, NonlinearConstraint): v = c.fun(np.array(x)); ok &= bool(np.all(v >= c.lb) and np.all(v <= c.ub))
        elif isinstance(c, dict) and c.get('type') == 'ineq': ok &= bool(np.all(np.asarray(c['fun'](np.array(x))) >= 0))
        else: return 'unknown'
    return 'yes' if ok else 'no'


def _one(a):
    tmp, seed, usecstr, todo = a
    rng = np.random.default_rng(seed); p = Pool(rng, tmp, usecstr)
    return [p.run(t) for t in todo]


def check(r):
    spec = lambda f: os.path.join(vf.SPEC, f)
    cfg = 'MC_MultiStartL' if r.thorough else 'MC_MultiStart'
    for b in ('ok', 'nocon', 'first'): r.expect_reject('MC_MultiStart', spec(f'BAD_MultiStart_{b}.cfg'))
    rc, out = r.tlc('MC_MultiStart', spec(cfg + '.cfg'))
    cn = r.counts(out)
    if rc or not cn: raise vf.Machinery('MC_MultiStart: ' + out[-2000:])
    r.mc.append(dict(model=cfg, states=cn[0], transitions=cn[1]))
    T = [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'^"(\{.*\})"$', out, re.M)]
    rng = r.rng(); r.extra['combinations_of_results'] = len(T)
    T = [T[int(i)] for i in rng.permutation(len(T))]
    if r.thorough: T = T[:30000]
    jobs = []
    for u in (True, False):
        L = [t for t in T if t['usecstr'] == u]
        L += [dict(usecstr=u, r=sum((L[int(rng.integers(len(L)))]['r'] for _ in range(4)), [])[:int(rng.integers(4, 8))]) for _ in range(4000 if r.thorough else 100)]      # more starts
        jobs += [(r.tmp, int(rng.integers(1 << 62)), u, L[j:j + 80]) for j in range(0, len(L), 80)]
    tr = vf.pmap(_one, jobs, procs=7)
    r.validate('MultiTrace', tr, None, 'results of the optimizer')
    r.notes.append('the results of the optimizer are scripted, with objective and condition number those of the vector')
