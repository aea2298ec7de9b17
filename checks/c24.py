"""C24: the outcome of the optimization of the hyperparameters."""
import json, os, re
import numpy as np
import vf
from vf import S, call, quiet
import gpgen as G
from c10 import limits, optimizer, value

RES = ['rescale_origin', 'rescale_eta_vary']


def iterates(c): return 'rescale' in c['wc']


def build(rng, tmp, k=None):
    """A configuration, data and an object."""
    k = dict(k or {})
    kern = k.pop('kern', None) or G.KERNS[int(rng.integers(3))]; dim = k.pop('dim', None) or int(rng.integers(1, 4))
    ug = k.pop('ug', bool(rng.random() < .75))
    wc = k.pop('wc', None) or (['base', 'precon', 'precon', *RES, 'dflt_vmin', 'dflt_vmax'][int(rng.integers(7))])
    if not ug: wc = 'base'
    noise = k.pop('noise', None) or (['zz', 'zz'] + G.NOISE)[int(rng.integers(11))]
    if not ug: noise = noise[0] + 'z'
    lg = [bool(x) for x in rng.random(3) < .8]
    c = G.cfg(kern, dim, ug, wc, optalpha=bool(rng.random() < .7), logth=lg[0], logkern=lg[1], logvar=lg[2],
              norm='2', pnlt=bool(rng.random() < .15), **k)
    n = int(rng.integers(2, 5 if ug else 7))
    d = G.data(rng, c, n, noise, G.some_mask(rng, n) if ug and rng.random() < .35 else None, level=float(10 ** rng.uniform(-3, -1)), lo=-1.0, hi=1.0)
    gp = G.mkgp(c, tmp); gp.init_optz_surr(8)
    o = G.set_data(gp, d)
    if o[0] != 'ok': raise RuntimeError('data are refused: ' + o[2])
    return c, d, gp, noise


class Rec:
    """Records the calls of the optimizer; `script` gives the results instead of it."""
    def __init__(self, gp, c, script=None):
        self.gp, self.c, self.script = gp, c, script
        self.calls = []

    def __call__(self, fun, x, kw):
        from scipy.optimize import OptimizeResult
        xs = S(self.gp.DataScl.xvec_scale) if self.gp.b_use_data_scl else 'none'
        b = kw.get('bounds')
        if self.script is None: res = self.real(fun, x.copy(), **kw)
        else:
            y = self.script(len(self.calls), x)
            fun(np.array(x)); f = fun(np.array(y))
            res = OptimizeResult(x=np.array(y), fun=value(f), success=True, nit=3, nfev=4, message='scripted', status=0)
        self.calls.append(dict(xs=xs, x0=S(x), lb=S(limits(b)[0]), ub=S(limits(b)[1]), x=S(np.ravel(res.x)), fun=S(float(np.ravel(res.fun)[0]))))
        return res

    def run(self, i):
        import scipy.optimize
        self.real = scipy.optimize.minimize
        with optimizer(self): return call(lambda: self.gp.set_hpara('optz', i))


def optz(gp, c, d, i, script=None, real=True):
    """An optimization for iteration i and what was left behind."""
    rec = Rec(gp, c, script)
    o, v, t = rec.run(i)
    e = dict(ev='Optz', out=o, i=i, nx0=1 if gp.lkd_optz_start_mtd == 'hp_best' else int(gp.optz_n_x0), calls=rec.calls, real=script is None, slsqp=gp.optz_mtd == 'SLSQP', usec=c['wc'] != 'precon', condmax=S(gp.cond_max), nconst=int(gp.hp_const_n_eval),
             maxit=int(gp.cond_vreq_max_iter), tol=S(gp.cond_vreq_iter_tol), h={}, row={}, xs='none', rowxs='none', cond='none', atmax=False, setup=False, _txt=t,
             init=dict(theta=S(gp.hp_theta_init), varK=S(gp.hp_varK_init), alpha=S(gp.hp_kernel_default), vf=S(gp.hp_var_fval_init), vg=S(gp.hp_var_fgrad_init)),
             _w=4 + 2 * len(rec.calls))
    if o == 'ok':
        e['h'] = G.hprec(gp.hp_vals)
        if gp.b_use_data_scl: e['xs'] = S(gp.DataScl.xvec_scale); e['rowxs'] = S(gp.xvec_rescaling_all[i])
        nn = lambda v: 'none' if not np.isfinite(v) else S(float(v))
        e['row'] = dict(beta=S(gp.hp_beta_all[i]), theta=S(gp.hp_theta_all[i]), alpha=nn(gp.hp_kernel_all[i]), varK=nn(gp.hp_varK_all[i]),
                        vf=nn(gp.hp_var_fval_all[i]), vg=nn(gp.hp_var_fgrad_all[i]))
        e['cond'] = S(gp.Kcov_cond_all[i]); e['atmax'] = bool(gp.Kcov_cond_at_max_all[i]); e['setup'] = gp.KernEta_chofac is not None
    return e


def history(rng, gp, c, noise, m):
    """Rows 0 .. m-1 of the history."""
    for i in range(m):
        u = lambda lo, hi: float(10 ** rng.uniform(lo, hi))
        h = gp.make_hp_class(np.array([rng.normal()]), 10 ** rng.uniform(-2, 2, c['dim']), u(-1, 1) if c['kern'] == 'RatQu' else None, u(-1, 2),
                             u(-4, -1) if noise[0] == 'u' else None, u(-4, -1) if c['ug'] and noise[1] == 'u' else None)
        with quiet(): gp.store_new_para_surr(i, h)


def settings(rng, gp):
    gp.lkd_optz_start_mtd = ['hp_best', 'lhs'][int(rng.random() < .35)]
    gp.optz_n_x0 = int(rng.integers(1, 4)); gp.lkd_hp_best_n_eval = int(rng.integers(1, 12))
    if rng.random() < .35: gp.cond_max = float(10 ** rng.uniform(4, 10))
    if rng.random() < .3: gp.cond_max_abs = float(gp.cond_max * 10 ** rng.uniform(0, 4)) 
    if rng.random() < .15: gp.optz_mtd = 'trust-constr'; gp.optz_iter_max = 30
    if rng.random() < .3: gp.cond_vreq_max_iter = int(rng.integers(1, 5))
    if rng.random() < .3: gp.cond_vreq_iter_tol = float(10 ** rng.uniform(-6, 1))
    if rng.random() < .3: gp.hp_lhs_bound_factor = 10.; gp.hp_box_bound_factor = float(10 ** rng.uniform(1, 3))
    gp.lkd_use_adj_mtd = bool(rng.random() < .6)


def _real(a):
    tmp, seed, n = a
    rng = np.random.default_rng(seed); out = []
    for _ in range(n):
        c, d, gp, noise = build(rng, tmp)
        if c['wc'] == 'rescale_eta_vary' and rng.random() < .6: gp.cond_eta_is_const = False; c['etaconst'] = False
        settings(rng, gp)
        if rng.random() < .25: gp.hp_const_n_eval = int(rng.integers(0, 6)); gp.hp_theta_init = float(10 ** rng.uniform(-2, 1)); gp.hp_var_fval_init = gp.hp_var_fgrad_init = 1e-3
        tr = [G.case(gp, c, d)]
        i = int(rng.integers(0, 4)) if rng.random() < .6 else 0
        history(rng, gp, c, noise, i)
        e = optz(gp, c, d, i); tr.append(e)
        if e['out'] == 'ok':
            tr.append(G.case(gp, c, d, xs0=False))
            x = rng.uniform(-1.2, 1.2, (2, c['dim'])); tr.append(G.eval_event(gp, gp.hp_vals, x))
            if rng.random() < .4:                                              # once more: with this one in the history
                tr.append(optz(gp, c, d, i + 1))
                tr += [G.case(gp, c, d, xs0=False), G.eval_event(gp, gp.hp_vals, x)]
        out.append(tr)
    return out


def _script(a):
    """Optima with given distances to the line of equal lengthscales."""
    tmp, seed, todo = a
    rng = np.random.default_rng(seed); out = []
    for t in todo:
        c, d, gp, noise = build(rng, tmp, dict(wc=RES[int(rng.integers(2))], dim=int(rng.integers(2, 4)), ug=True))
        if c['wc'] == 'rescale_eta_vary': gp.cond_eta_is_const = False; c['etaconst'] = False
        gp.cond_vreq_max_iter = t['maxit']; gp.cond_vreq_iter_tol = .1
        gp.cond_max = gp.cond_max_abs = 1e15
        if rng.random() < .4: gp.lkd_optz_start_mtd = 'lhs'; gp.optz_n_x0 = n0 = int(rng.integers(1, 4))
        else: gp.lkd_hp_best_n_eval = 3; n0 = 1
        far = 40 if rng.random() < .4 else 1           # lengthscales that are very different from each other, for data along a line
        lev = {0: 0.03, 2: 0.25 * far, 3: 0.55 * far, 4: 0.9 * far}
        if far > 1:
            d.x[:, int(rng.integers(c['dim']))] *= 1e-4 if c['dim'] == 2 else 1
            o = G.set_data(gp, d)
            if o[0] != 'ok': raise RuntimeError('data are refused: ' + o[2])
        def script(q, x):
            p = max(0, q - n0 + 1)
            k = t['dist'][p] if p < len(t['dist']) else 0
            u = rng.standard_normal(c['dim']); u -= u.mean(); u *= (lev[k] * (1 + .05 * rng.random())) ** .5 / np.linalg.norm(u)
            th = 10. ** (rng.uniform(-.7, .3) + u)
            v = np.array(x, dtype=float); v[:c['dim']] = np.log10(th) if c['logth'] else th
            for j in range(c['dim'], v.size):
                kd = (['kernel'] if c['kern'] == 'RatQu' and c['optalpha'] else []) + ['v'] * 9
                lg = c['logkern'] if kd[j - c['dim']] == 'kernel' else c['logvar']
                w = 10. ** rng.uniform(-.5, .5); v[j] = np.log10(w) if lg else w
            return v
        tr = [G.case(gp, c, d)]
        e = optz(gp, c, d, 0, script); tr.append(e)
        if e['out'] == 'ok': tr += [G.case(gp, c, d, xs0=False), G.eval_event(gp, gp.hp_vals, rng.uniform(-1.2, 1.2, (2, c['dim'])))]
        out.append(tr)
    return out


def _steady(a):
    """Iteration after iteration the optimizer gives the same vector (as at a bound), for other data, with other options."""
    tmp, seed, n = a
    rng = np.random.default_rng(seed); out = []
    for _ in range(n):
        c, d, gp, noise = build(rng, tmp)
        if c['wc'] == 'rescale_eta_vary': gp.cond_eta_is_const = False; c['etaconst'] = False
        gp.cond_max = gp.cond_max_abs = 1e15; gp.lkd_hp_best_n_eval = 3; gp.cond_vreq_max_iter = 2
        u = rng.uniform(-.7, .3, c['dim']) if rng.random() < .5 else np.full(c['dim'], rng.uniform(-.5, .3)); w = 10. ** rng.uniform(-.5, .5, 4)
        def script(q, x):
            v = np.array(x, dtype=float); v[:c['dim']] = u if c['logth'] else 10. ** u
            for j in range(c['dim'], v.size):
                lg = c['logkern'] if c['kern'] == 'RatQu' and c['optalpha'] and j == c['dim'] else c['logvar']
                v[j] = np.log10(w[j - c['dim']]) if lg else w[j - c['dim']]
            return v
        tr = []
        for i in range(4):
            if i and rng.random() < .8:
                m = d.f.size if rng.random() < .5 else int(rng.integers(2, 5))
                d2 = G.data(rng, c, m, noise, None, level=1e-2, lo=-1.0, hi=1.0)
                if m == d.f.size and d.mask is None and rng.random() < .5: d2.x = d.x          # only other values
                d = d2; o = G.set_data(gp, d)
                if o[0] != 'ok': raise RuntimeError('data are refused: ' + o[2])
            if rng.random() < .3: gp.lkd_use_adj_mtd = not gp.lkd_use_adj_mtd
            tr.append(G.case(gp, c, d, xs0=False))
            e = optz(gp, c, d, i, script); tr.append(e)
            if e['out'] != 'ok': break
            tr += [G.case(gp, c, d, xs0=False), G.eval_event(gp, gp.hp_vals, rng.uniform(-1.2, 1.2, (2, c['dim'])))]
        out.append(tr)
    return out


def check(r):
    spec = lambda f: os.path.join(vf.SPEC, f)
    cfg = 'MC_RescaleIterL' if r.thorough else 'MC_RescaleIter'
    for b in ('last', 'scaling_stays', 'cond_stays'): r.expect_reject('MC_RescaleIter', spec(f'BAD_RescaleIter_{b}.cfg'))
    rc, out = r.tlc('MC_RescaleIter', spec(cfg + '.cfg'))
    cn = r.counts(out)
    if rc or not cn: raise vf.Machinery('MC_RescaleIter: ' + out[-2000:])
    r.mc.append(dict(model=cfg, states=cn[0], transitions=cn[1]))
    T = [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'^"(\{.*\})"$', out, re.M)]
    T = [json.loads(x) for x in sorted({json.dumps(t) for t in T if t['maxit'] > 1})]
    rng = r.rng(); r.extra['sequences_of_passes'] = len(T)
    T = [T[int(i)] for i in rng.permutation(len(T))]
    if not r.thorough: T = T[:60]
    jobs = [(r.tmp, int(rng.integers(1 << 62)), T[j:j + 10]) for j in range(0, len(T), 10)]
    tr = [t for x in vf.pmap(_script, jobs, procs=7) for t in x]
    jobs = [(r.tmp, int(rng.integers(1 << 62)), 12) for _ in range(8 if not r.thorough else 120)]
    tr += [t for x in vf.pmap(_real, jobs, procs=7) for t in x]
    jobs = [(r.tmp, int(rng.integers(1 << 62)), 5) for _ in range(7 if not r.thorough else 70)]
    tr += [t for x in vf.pmap(_steady, jobs, procs=7) for t in x]
    r.validate('GPTrace', tr, ['optz-.*', 'case-xs', 'eval-(mu|sig|outcome)', 'evaluation-error'], 'optimizations')
    r.notes.append('2 to 6 points, 1 to 3 dimensions; the optimizer of scipy is the real one, and a scripted one for the sequences of passes')
