"""Random configurations, data and hyperparameters, and the recorders of trace events for a
GaussianProcess of the code under test."""
import contextlib
import numpy as np
from vf import S, call, quiet

KERNS = ['SqExp', 'Ma5f2', 'RatQu']
SCALED = ['rescale_origin', 'rescale_eta_vary', 'dflt_vmin', 'dflt_vmax']


def GP(*a, **k):
    from gpgradpy.src.GaussianProcess import GaussianProcess
    return GaussianProcess(*a, **k)


@contextlib.contextmanager
def no_cholesky(fails=lambda k: True):
    """The k-th Cholesky factorization of scipy and numpy fails if fails(k)."""
    import scipy.linalg._decomp_cholesky as m
    keep, keep2 = getattr(m, '_cholesky', None), np.linalg.cholesky; n = [0]

    def wrap(f):
        def g(*a, **k):
            n[0] += 1
            if fails(n[0]): raise np.linalg.LinAlgError('not positive definite (made to fail)')
            return f(*a, **k)
        return g
    if keep: m._cholesky = wrap(keep)
    np.linalg.cholesky = wrap(keep2)
    try: yield
    finally:
        if keep: m._cholesky = keep
        np.linalg.cholesky = keep2


def cfg(kern='SqExp', dim=2, ug=True, wc='base', **k):
    c = dict(kern=kern, dim=dim, ug=ug, wc=wc if ug else 'base', etaset='Kbase_eta', etadflt='1e-08', etaconst=True,
             target='10000000000.0', vdflt='1', vrescale='1.0', pnlt=False, p1='1.0', p2='10.0', plb='0.1',
             optalpha=True, logth=True, logkern=True, logvar=True, norm='2', condabs='1e16')
    c.update(k)
    return c


def plain(kern, dim, ug, wc):
    """Configuration of a surrogate on which nothing is set: the documented defaults."""
    return cfg(kern, dim, ug, wc or 'base', etaconst=wc != 'rescale_eta_vary', plain=str(wc))


def mkgp(c, tmp, wc=None):
    """The object of the code under test for the configuration c."""
    with quiet():
        gp = GP(c['dim'], c['ug'], c['kern'], wc or (None if c.get('plain') == 'None' else c['wc']), path_data_surr=tmp + '/surr')
    if c.get('plain'): return gp
    return setopts(gp, c)


def setopts(gp, c):
    gp.cond_eta_set_mtd = c['etaset']; gp.cond_eta_dflt = float(c['etadflt'])
    gp.cond_max_target = float(c['target'])
    gp.cond_eta_is_const = c['etaconst']
    gp.lkd_varK_pnlt_use = c['pnlt']; gp.lkd_varK_pnlt_c1 = float(c['p1']); gp.lkd_varK_pnlt_c2 = float(c['p2'])
    gp.lkd_varK_pnlt_lb_var = float(c['plb'])
    gp.b_optz_hp_kernel = c['optalpha']
    gp.optz_log_hp_theta = c['logth']; gp.optz_log_hp_kernel = c['logkern']; gp.optz_log_hp_var = c['logvar']
    gp.cond_norm = 2 if c['norm'] == '2' else 'fro'
    gp.cond_dist_min_dflt = gp.cond_dist_max_dflt = float(c['vdflt'])
    gp.vmin_rescale_eta_vary = float(c['vrescale']); gp.cond_max_abs = float(c['condabs'])
    return gp


def spread(rng, n, dim, lo=-1.0, hi=1.0, dmin=None):
    """n points that are not too close to each other."""
    dmin = dmin or 0.5 * (hi - lo) / max(1, n) ** (1 / dim)
    while True:
        X = rng.uniform(lo, hi, (n, dim))
        d = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1)) + 1e9 * np.eye(n)
        if n == 1 or d.min() > dmin: return np.round(X, 6)
        dmin *= 0.97


def form(v, k):
    """The same numbers as another kind of array: by columns, with strides, backwards in memory, read-only, integers if they are."""
    if v is None or k == 'plain': return v
    v = np.asarray(v)
    if k == 'F': return np.asfortranarray(v)
    if k == 'stride':
        w = np.zeros(tuple(2 * n for n in v.shape), v.dtype); sl = tuple(slice(0, 2 * n, 2) for n in v.shape); w[sl] = v
        return w[sl]
    if k == 'back': return v[::-1].copy()[::-1]
    if k == 'ro':
        w = v.copy(); w.setflags(write=False); return w
    if k == 'int': return v if v.dtype == bool or np.any(v != np.round(v)) else v.astype(int)
    if k == 'copy': return v.copy()


FORMS = ['plain', 'F', 'stride', 'back', 'ro', 'int']


class Data:
    """x, f, sf (None: unknown), g (None: no gradients), sg, mask (None: all gradients)"""
    def __init__(self, rng, n, dim, ug, ksf=True, ksg=True, noise=0.0, mask=None, noise_g=None, lo=-1.0, hi=1.0):
        self.x = spread(rng, n, dim, lo, hi)
        a = rng.uniform(-2, 2, dim); b = rng.uniform(0.3, 1.5, dim)
        self.f = np.sin(self.x @ a) + 0.5 * (self.x ** 2) @ b + rng.normal(0, 0.1, n) + rng.uniform(-2, 2)
        self.mask = None if mask is None else np.array(mask, dtype=bool)
        ng = n if mask is None else int(self.mask.sum())
        xg = self.x if mask is None else self.x[self.mask]
        noise_g = noise if noise_g is None else noise_g
        self.sf = (noise * rng.uniform(0.3, 1.5, n)) if ksf else None
        if ug:
            self.g = np.cos(xg @ a)[:, None] * a[None] + xg * b[None] + rng.normal(0, 0.1, (ng, dim))
            self.sg = (noise_g * rng.uniform(0.3, 1.5, (ng, dim))) if ksg else None
        else:
            self.g = self.sg = None
        self.ug = ug

    def times(self, a):
        if a != 1.0:
            self.f = self.f * a
            for k in ('sf', 'g', 'sg'):
                if getattr(self, k) is not None: setattr(self, k, getattr(self, k) * a)
        return self

    def args(self, kind=None, own=False):
        """own: arrays that are no others' (the caller changes them later)."""
        kind = kind or getattr(self, 'kind', None) or (FORMS + ['plain'] * 3)[int(abs(self.f[0]) * 1e7) % 9]
        return {k: form(form(v, 'copy') if own else v, kind) for k, v in dict(x_eval=self.x, fval=self.f, std_fval=self.sf, grad=self.g, std_grad=self.sg, bvec_use_grad=self.mask).items()}

    def whole(self, rng=None):
        """Whole numbers; only some of the arrays with rng."""
        one = lambda: rng is None or rng.random() < .6
        k = 3
        while one():
            x = np.round(self.x * k)
            if len(np.unique(x, axis=0)) == len(x): self.x = x; break
            k += 1
        self.kind = 'int'
        for a in ('f', 'sf', 'g', 'sg'):
            if getattr(self, a) is not None and one(): setattr(self, a, np.round(getattr(self, a) * 3))
        return self

    def rec(self):
        n = self.f.size
        return dict(x=S(self.x), f=S(self.f), ksf=self.sf is not None, sf=S(self.sf) if self.sf is not None else [],
                    g=S(self.g) if self.ug else [], ksg=self.ug and self.sg is not None, sg=S(self.sg) if self.ug and self.sg is not None else [],
                    mask=[False] * n if not self.ug else [True] * n if self.mask is None else [bool(b) for b in self.mask])

    def noisy(self):
        return not ((self.sf is not None and self.sf.max() < 1e-10) and (not self.ug or (self.sg is not None and self.sg.max() < 1e-10)))


def set_data(gp, d):
    a = d.args()
    return call(lambda: gp.set_data(a['x_eval'], a['fval'], a['std_fval'], a['grad'], a['std_grad'], a['bvec_use_grad']))


def hp(gp, theta, beta=0.0, alpha=None, varK=1.0, vf=None, vg=None):
    return gp.make_hp_class(np.array([float(beta)]), np.array(theta, dtype=float), alpha,
                            varK, vf, vg)


def hprec(h):
    sc = lambda v: 'none' if v is None else S(float(np.ravel(v)[0]))
    return dict(beta=S(np.atleast_1d(h.beta)) if h.beta is not None else [], theta=S(h.theta), alpha=sc(h.kernel), varK=sc(h.varK), vf=sc(h.var_fval), vg=sc(h.var_fgrad))


def rand_hp(rng, gp, c, d, lo=0.6, hi=3.0, varK=None, amp=1.0):
    """Hyperparameters that suit the data (theta in the coordinates that the kernel sees)."""
    th = np.exp(rng.uniform(np.log(lo), np.log(hi), c['dim']))
    os_ = amp * (float(gp.DataScl.obj_scale) if gp.b_use_data_scl and hasattr(gp, 'DataScl') else 1.0)
    return hp(gp, th, beta=rng.uniform(-2, 2) * (1.0 if gp.b_use_data_scl else amp), alpha=float(np.round(rng.uniform(0.5, 4), 3)) if c['kern'] == 'RatQu' else None,
              varK=float(rng.uniform(0.3, 4)) * os_ ** 2 if varK is None else varK,
              vf=None if d.sf is not None else float(10 ** rng.uniform(-3, -1)) * os_ ** 2,
              vg=None if (not d.ug or d.sg is not None) else float(10 ** rng.uniform(-3, -1)) * os_ ** 2)


def case(gp, c, d, xs0=True, **k):
    xs = S(gp.DataScl.xvec_scale) if gp.b_use_data_scl else 'none'
    return dict(ev='Case', c=c, d=d.rec(), xs=xs, xs0=xs0, **k)


def eval_event(gp, h, x, grad=False, hess=False, var=False, sq=False, w=1, **k):
    """An evaluation of the surrogate (setup_eval_model has been called with h)."""
    e = dict(ev='Eval', h=hprec(h), x=S(np.atleast_2d(x)), mu='none', sig='none', dmu='none', dsig='none', d2mu='none', d2sig='none',
             sig2='none', dsig2='none', _w=w * (1 + 3 * grad + 12 * hess), **k)
    if var:
        o, v, t = call(lambda: gp.eval_model_var(x, calc_grad=grad, squeeze_nx=sq))
        e['out'] = o
        if o == 'ok':
            e['sig2'] = S(v[0]) if not sq else [S(v[0])]
            if grad: e['dsig2'] = S(v[1]) if not sq else [S(v[1])]
    else:
        o, v, t = call(lambda: gp.eval_model(x, calc_grad=grad, calc_hess=hess, squeeze_nx=sq))
        e['out'] = o
        if o == 'ok':
            for i, f in enumerate(['mu', 'sig', 'dmu', 'dsig', 'd2mu', 'd2sig']):
                if i < 2 or (i < 4 and grad) or (i >= 4 and hess):
                    e[f] = S(v[i]) if not sq else [S(v[i])]
    e['_txt'] = t
    return e


def setup(gp, h, i=1):
    return call(lambda: gp.set_hpara('set', i, hp_vals=h))


# ---------------------------------------------------------------- scenarios
# noise of values / gradients: z zero, k known, u unknown
NOISE = ['zz', 'kk', 'kz', 'zk', 'uz', 'zu', 'uu', 'uk', 'ku']


def data(rng, c, n, noise='zz', mask=None, level=0.03, lo=-1.0, hi=1.0):
    a, b = noise
    return Data(rng, n, c['dim'], c['ug'], ksf=a != 'u', ksg=b != 'u', noise=0.0 if a == 'z' else level, noise_g=0.0 if b == 'z' else level,
                mask=mask, lo=lo, hi=hi)


def some_mask(rng, n, kmin=1):
    """A selection with at least kmin and fewer than n gradients (n > 1)."""
    k = int(rng.integers(min(kmin, n - 1), n))
    m = np.zeros(n, bool); m[rng.permutation(n)[:k]] = True
    return m


class Scen:
    """An object of the code under test with data and hyperparameters."""
    def __init__(self, r, rng, kern, dim, n, ug=True, wc='base', noise='zz', mask=None, level=0.03, lo=0.6, hi=3.0, varK=None, box=(-1.0, 1.0), data_=None, **k):
        self.rng = rng
        self.c = plain(kern, dim, ug, wc) if k.pop('plain', False) else cfg(kern, dim, ug, wc, **k)
        # values of any magnitude
        amp = 1.0 if data_ is not None or rng.random() < .75 else float(10 ** rng.uniform(-6, 6))
        self.d = data_ or data(rng, self.c, n, noise if ug else noise[0] + 'z', mask, level, *box).times(amp)
        self.gp = mkgp(self.c, r.tmp)
        self.set_out = set_data(self.gp, self.d)
        self.ok = self.set_out[0] == 'ok'
        if self.ok: self.h = rand_hp(rng, self.gp, self.c, self.d, lo, hi, varK, amp)

    def case(self, **k):
        return case(self.gp, self.c, self.d, **k) if self.ok else dict(ev='Bad', what='set_data', text=self.set_out[2])

    def points(self, nx, at=()):
        """Evaluation points: inside and slightly outside the data, and the data with the indices in `at`."""
        x = self.d.x
        lo, hi = x.min(0) - 0.15 - 0.1 * (x.max(0) - x.min(0)), x.max(0) + 0.15 + 0.1 * (x.max(0) - x.min(0))
        P = self.rng.uniform(lo, hi, (nx, self.c['dim']))
        for i, j in enumerate(at): P[i] = x[j]
        return P

    # --- recorders
    def mat(self, norm=False, h=None, bound=True, w=3):
        h = h or self.h; gp = self.gp
        e = dict(ev='Mat', h=hprec(h), norm=norm, kern='none', cov='none', fac='none', eta='none', cond='none', _w=w,
                 bound=bound and (self.c['wc'] == 'precon' or (not self.c['ug'] and not self.d.noisy())))
        def f():
            R = gp.get_scl_x_w_dist()[1]
            if norm: return gp.calc_all_K_w_chofac(R, h, calc_cond=True, b_normlz_w_varK=True)
            if gp.b_has_noisy_data: return gp.calc_all_K_w_chofac(R, h, calc_cond=True)
            return gp.calc_Kern_w_chofac(R, h, calc_cond=True)
        o, v, t = call(f)
        e['out'] = o; e['_txt'] = t
        if o == 'ok':
            kern, _, cov, fac, cond, eta, _ = v
            e['kern'] = S(kern); e['cov'] = S(cov); e['cond'] = S(cond); e['eta'] = S(eta)
            if fac is not None: e['fac'] = S(np.tril(fac[0]) if fac[1] else np.triu(fac[0]).T)
        return e

    def noise(self, h=None):
        h = h or self.h; gp = self.gp
        o, v, t = call(lambda: gp.calc_noise_vec(h))
        return dict(ev='Noise', h=hprec(h), out=o, val=S(v) if o == 'ok' else 'none', noisy=bool(gp.b_has_noisy_data), _txt=t)

    def lkd(self, h=None, adj=None, cond=True, grad=False):
        h = h or self.h; gp = self.gp
        if grad and self.c['wc'] == 'precon': cond = False   # no gradient of the condition number with the preconditioner
        o, v, t = call(lambda: gp.calc_lkd_all(h, calc_cond=cond, calc_grad=grad, lkd_use_adj_mtd=adj))
        e = dict(ev='Lkd', h=hprec(h), out=o, good=False, lkd='none', beta='none', varK='none', cond='none', _txt=t, _w=3)
        if o == 'ok':
            L, g = v
            e.update(good=bool(g))
            if g:
                e.update(lkd=S(L.ln_lkd), beta=S(np.atleast_1d(L.hp_beta)), varK=S(None if L.hp_varK is None else float(np.ravel(L.hp_varK)[0])),
                         cond=S(L.cond) if cond else 'none')
            else: e['out'] = 'fail'
        return e

    def vec(self, h=None):
        """Vector of the hyperparameters that are optimized (by the layout of the specification)."""
        h = h or self.h; c = self.c
        f = lambda on, v: np.log10(v) if on else v
        v = [f(c['logth'], t) for t in h.theta]
        if c['kern'] == 'RatQu' and c['optalpha']: v.append(f(c['logkern'], h.kernel))
        if self.d.noisy(): v.append(f(c['logvar'], h.varK))
        if self.d.sf is None: v.append(f(c['logvar'], h.var_fval))
        if c['ug'] and self.d.sg is None: v.append(f(c['logvar'], h.var_fgrad))
        return np.array([float(np.ravel(x)[0]) for x in v])

    def grad(self, v=None, adj=True, cond=True, w=12, fault=False):
        v = self.vec() if v is None else v
        gp = self.gp; gp.lkd_use_adj_mtd = adj
        if self.c['wc'] == 'precon': cond = False   # not available
        def f():
            gp.b_use_cond_cstr = gp.b_use_cond_cstr or cond
            if fault: return -gp.return_optz_val(v), -gp.return_optz_grad(v), None, None
            return gp.calc_store_likelihood(v, always_calc_cond=cond)
        keep = gp.b_use_cond_cstr
        if fault: cond = False
        with no_cholesky() if fault else contextlib.nullcontext():
            o, r, t = call(f)
        gp.b_use_cond_cstr = keep
        e = dict(ev='Grad', v=S(v), out=o, condreq=bool(cond), fault=bool(fault), lkd='none', grad='none', cgrad='none', cond='none', _txt=t, _w=w * len(v))
        if o == 'ok':
            e.update(lkd=S(r[0]), grad=S(r[1]), cgrad=S(r[3]) if cond else 'none', cond=S(r[2]) if cond else 'none')
        return e

    def setup(self, h=None, i=1): return setup(self.gp, h or self.h, i)

    def eval(self, x, **k): return eval_event(self.gp, k.pop('h', None) or self.h, x, **k)

    def trace(self, *ev): return [self.case(), *ev]


def reused(r, rng, kern, steps=8, rec=None):
    """One object whose settings and data change: after each change of both it is judged as one with these settings and data."""
    dim = int(rng.integers(1, 4)); ug = bool(rng.random() < .75)
    wcs = ['base', 'precon', 'rescale_origin', 'dflt_vmin', 'dflt_vmax', 'rescale_eta_vary'] if ug else ['base']
    def newc(c=None):
        wc = wcs[int(rng.integers(len(wcs)))]
        k = dict(etaset=['Kbase_eta', 'Kbase_eta', 'Kbase_eta_w_dim', 'dflt_eta'][int(rng.integers(4))], etadflt=['1e-08', '3e-07'][int(rng.integers(2))],
                 target=['10000000000.0', '1e4', '1e7', '1e12'][int(rng.integers(4))], vdflt=['1', '0.7', '2.5'][int(rng.integers(3))], vrescale=['1.0', '1.6'][int(rng.integers(2))],
                 etaconst=wc != 'rescale_eta_vary')
        if c is not None:       # a few of them
            keep = [q for q in k if q != 'etaconst' and rng.random() < .6]
            if rng.random() < .4: wc = c['wc']; k['etaconst'] = c['etaconst']
            for q in keep: k[q] = c[q]
        return cfg(kern, dim, ug, wc, **k)
    c = newc(); gp = mkgp(c, r.tmp); tr = []; n = int(rng.integers(1, 5))
    for i in range(steps):
        if i:
            c = newc(c)
            with quiet(): gp.set_wellcond_mtd(c['wc'])
            setopts(gp, c)
            if rng.random() < .4: n = int(rng.integers(1, 5))
        zs = [z for z in NOISE if ug or z[1] == 'z']
        d = d if i and d.f.size == n and rng.random() < .4 else data(rng, c, n, zs[int(rng.integers(len(zs)))], some_mask(rng, n) if ug and n > 1 and rng.random() < .25 else None)
        o = set_data(gp, d)
        if o[0] != 'ok' or (gp.b_use_data_scl and not hasattr(gp, 'DataScl')): tr.append(dict(ev='Bad', what='set_data', text=o[2])); return tr
        s = Scen.__new__(Scen)
        s.rng, s.c, s.d, s.gp, s.ok = rng, c, d, gp, True; s.h = rand_hp(rng, gp, c, d)
        tr += [s.case()] + rec(s, i)
    return tr
