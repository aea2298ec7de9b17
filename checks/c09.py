"""C09: bounds, sampling and selection of the starts of the optimization."""
import json, os, re, types
import numpy as np
import vf
from vf import S, call, quiet
import gpgen as G
from c08 import F

RNG = dict(theta='hp_theta_range', alpha='hp_kernel_range', varK='hp_varK_range', vf='hp_var_fval_range', vg='hp_var_fgrad_range')


def conf(rng, noise=None, kern=None, dim=None, ug=None):
    kern = kern or G.KERNS[int(rng.integers(3))]; dim = dim or int(rng.integers(1, 4)); ug = bool(rng.random() < .7) if ug is None else ug
    noise = noise or G.NOISE[int(rng.integers(len(G.NOISE)))]
    if not ug: noise = noise[0] + 'z'
    lg = rng.random(3) < .75
    wc = ['base', 'precon', 'rescale_origin', 'rescale_eta_vary', 'dflt_vmin', 'dflt_vmax'][int(rng.integers(6))]
    c = G.cfg(kern, dim, ug, wc, optalpha=bool(rng.random() < .7), logth=bool(lg[0]), logkern=bool(lg[1]), logvar=bool(lg[2]))
    k = dict(kern=kern, dim=dim, ug=ug, optalpha=c['optalpha'], logth=c['logth'], logkern=c['logkern'], logvar=c['logvar'], nf=noise[0], ng=noise[1])
    return c, k, noise


def history(rng, gp, k, m, wide, d, near=None):
    """m optima are stored; what was given.  near: the optima are close to those of that history."""
    hist = dict(theta=[[] for _ in range(k['dim'])], alpha=[], varK=[], vf=[], vg=[])
    for i in range(m):
        u = lambda lo, hi: float(10 ** rng.uniform(lo, hi))
        th = [u(-21, 27) if wide else u(-4, 3) for _ in range(k['dim'])]
        al = u(-5, 3) if wide else u(-2, 1)
        vk, f, g = (u(-27, 17), u(-12, 11), u(-12, 11)) if wide else (u(-4, 3), u(-6, 2), u(-6, 2))
        if near is not None:
            q = lambda v: float(v) * (1 + 1e-3 * rng.uniform(-1, 1))
            th = [q(near['theta'][j][i]) for j in range(k['dim'])]; al, vk, f, g = (q(near[a][i]) for a in ('alpha', 'varK', 'vf', 'vg'))
        h = gp.make_hp_class(np.array([rng.normal()]), np.array(th), al if k['kern'] == 'RatQu' else None, vk, f if k['nf'] == 'u' else None, g if k['ug'] and k['ng'] == 'u' else None)
        with quiet(): gp.store_new_para_surr(i, h)
        for j in range(k['dim']): hist['theta'][j].append(S(th[j]))
        for a, v in zip(('alpha', 'varK', 'vf', 'vg'), (al, vk, f, g)): hist[a].append(S(v))
    return hist


def params(rng, gp, k):
    """Ranges and factors, often changed; what holds."""
    if rng.random() < .5:
        gp.hp_theta_range = [float(10 ** rng.uniform(-20, -3)), float(10 ** rng.uniform(0, 20))]
        gp.hp_varK_range = [float(10 ** rng.uniform(-20, -3)), float(10 ** rng.uniform(0, 14))]
        gp.hp_var_fval_range = [float(10 ** rng.uniform(-9, -3)), float(10 ** rng.uniform(0, 8))]
        gp.hp_var_fgrad_range = [float(10 ** rng.uniform(-9, -3)), float(10 ** rng.uniform(0, 8))]
        if k['kern'] == 'RatQu': gp.hp_kernel_range = [float(10 ** rng.uniform(-3, -1)), float(10 ** rng.uniform(0, 2))]
    if rng.random() < .5:
        gp.hp_lhs_bound_factor = float(10 ** rng.uniform(.3, 3)); gp.hp_box_bound_factor = float(gp.hp_lhs_bound_factor * 10 ** rng.uniform(0, 3))
    if rng.random() < .6: gp.hp_median_n_idx = int(rng.integers(1, 7))
    if rng.random() < .3:
        gp.hp_theta_init = float(10 ** rng.uniform(-22, 25)); gp.hp_varK_init = float(10 ** rng.uniform(-3, 3))
        gp.hp_var_fval_init = float(10 ** rng.uniform(-10, 10)); gp.hp_var_fgrad_init = float(10 ** rng.uniform(-10, 10))


def base(gp, k, i, hist):
    return dict(k=k, i=i, win=int(gp.hp_median_n_idx), hist=hist, lhs=S(gp.hp_lhs_bound_factor), box=S(gp.hp_box_bound_factor),
                rng={a: S(list(getattr(gp, b))) for a, b in RNG.items()},
                init=dict(theta=S(gp.hp_theta_init), alpha=S(gp.hp_kernel_default), varK=S(gp.hp_varK_init), vf=S(gp.hp_var_fval_init), vg=S(gp.hp_var_fgrad_init)))


def x0(rng, gp, k, i, hist, n):
    gp.optz_n_x0 = n
    f = lambda: gp.get_hp_x0_lhs_median(i, gp.hp_info_optz_lkd, n)
    e = dict(ev='X0', n=n, x0=[], x0b=[], lb=[], ub=[], lbb=[], ubb=[], **base(gp, k, i, hist), _w=1 + n / 8)
    o, v, t = call(f)
    np.random.seed(int(rng.integers(1 << 30))); np.random.rand(3)       # the result does not depend on the state of the generator
    o2, w, t2 = call(f)
    e.update(out=o if o2 == 'ok' else o2, _txt=t + t2)
    if e['out'] == 'ok': e.update(x0=S(v[0]), lb=S(v[1].lb), ub=S(v[1].ub), x0b=S(w[0]), lbb=S(w[1].lb), ubb=S(w[1].ub))
    return e


def hpbounds(rng, gp, k, i, hist):
    fr = float(np.round(rng.uniform(.05, .95), 3)); use = bool(rng.random() < .8)
    o, v, t = call(lambda: gp.get_hp_bounds(gp.hp_info_optz_lkd, use, i, fr))
    e = dict(ev='HpBounds', out=o, lb=[], ub=[], frac=S(fr), usehist=use, nconst=int(gp.hp_const_n_eval), **base(gp, k, i, hist), _txt=t)
    if o == 'ok': e.update(lb=S(v[2].lb), ub=S(v[2].ub))
    return e


def _bounds(a):
    tmp, seed, cnt = a
    rng = np.random.default_rng(seed); tr = []
    for _ in range(cnt):
        c, k, noise = conf(rng)
        with quiet():
            gp = G.mkgp(c, tmp); gp.init_optz_surr(9)
        n = int(rng.integers(1, 4)); d = G.data(rng, c, n, noise)
        G.set_data(gp, d)
        params(rng, gp, k)
        m = int(rng.integers(0, 9))
        hist = history(rng, gp, k, m, rng.random() < .5, d)
        ev = []
        for i in sorted(set([0, m, int(rng.integers(0, m + 1))])):
            ev.append(x0(rng, gp, k, i, hist, int([1, 2, 5, 40, 7][int(rng.integers(5))])))
            ev.append(hpbounds(rng, gp, k, i, hist))
        if m and rng.random() < .4:      # almost the same optima, and as many starts
            hist2 = history(rng, gp, k, m, False, d, hist)
            ev += [x0(rng, gp, k, i, hist2, e['n']) for i, e in [(e['i'], e) for e in ev if e['ev'] == 'X0'][:2]]
        tr.append(ev)
    return tr


def outcome(gp, row, precon):
    """Outcome at a sample by the code itself."""
    with quiet():
        L, good = gp.calc_lkd_all(gp.hp_vec2dataclass(gp.hp_info_optz_lkd, row), calc_cond=not precon)
    good = bool(good)
    return dict(good=good, lkd=S(L.ln_lkd) if good else '0', cond=S(L.cond) if good and not precon else '0')


def select(gp, i, n, o=None, cmax=1e10, tol='1e-12'):
    """A selection; o are scripted outcomes (or None for those of the code)."""
    gp.lkd_optz_start_mtd = 'hp_best'; gp.lkd_hp_best_n_eval = n; gp.optz_n_x0 = n + 2
    precon = gp.wellcond_mtd == 'precon'
    with quiet(): sample, b = gp.get_hp_x0_lhs_median(i, gp.hp_info_optz_lkd, n)
    dec = [gp.hp_vec2dataclass(gp.hp_info_optz_lkd, row) for row in sample]
    if o is None: o = [outcome(gp, row, precon) for row in sample]
    else:
        def fake(hp_vals, calc_lkd=True, calc_cond=False, calc_grad=False, **kw):
            j = next(j for j, h in enumerate(dec) if np.allclose(h.theta, hp_vals.theta, rtol=1e-12, atol=0))
            x = o[j]; g = bool(x['good'])
            info = types.SimpleNamespace(ln_lkd=x['lkd'] if g else None, cond=x['cond'] * 1e9 if g and calc_cond else (3e16 if calc_cond else None), hp_beta=None, hp_varK=None, ln_lkd_grad=None, cond_grad=None)
            return info, g
        gp.calc_lkd_all = fake
    out, v, t = call(lambda: gp.select_hp_optz_x0(i, gp.hp_info_optz_lkd))
    gp.__dict__.pop('calc_lkd_all', None)
    st = lambda x: dict(good=x['good'], lkd=str(x['lkd']), cond=x['cond'] if isinstance(x['cond'], str) else S(x['cond'] * 1e9))
    e = dict(ev='Select', out=out, usecond=not precon, limit=S(1.2 * gp.cond_max), o=[st(x) for x in o], sample=S(sample), sel=[], lb=S(b.lb), ub=S(b.ub), lbb=[], ubb=[], tol=tol, _txt=t)
    if out == 'ok': e.update(sel=S(v[0]), lbb=S(v[1].lb), ubb=S(v[1].ub))
    return e


def _scripted(a):
    tmp, seed, todo = a
    rng = np.random.default_rng(seed); gps = {}
    for precon in (True, False):
        c = G.cfg(G.KERNS[int(rng.integers(3))], 2, True, 'precon' if precon else 'base')
        gp = G.mkgp(c, tmp); gp.init_optz_surr(2); G.set_data(gp, G.data(rng, c, 3, 'zz')); gp.cond_max = 1e10
        gps[not precon] = gp
    return [select(gps[t['usecond']], 0, len(t['o']), t['o']) for t in todo]


def _real(a):
    tmp, seed, cnt = a
    rng = np.random.default_rng(seed); tr = []
    for _ in range(cnt):
        c, k, noise = conf(rng)
        if rng.random() < .6: c['wc'] = 'base'
        gp = G.mkgp(c, tmp); gp.init_optz_surr(9)
        d = G.data(rng, c, int(rng.integers(2, 5)), noise); G.set_data(gp, d)
        gp.cond_max = float(10 ** rng.uniform(.3, 11)); gp.cond_max_abs = float(10 ** rng.uniform(8, 17))
        m = int(rng.integers(0, 4)); history(rng, gp, k, m, False, d)
        n = int([3, 10, 25][int(rng.integers(3))]); i = int(rng.integers(0, m + 1))
        gp.hp_lhs_bound_factor = float(10 ** rng.uniform(.5, 3))
        with quiet(): sample, b = gp.get_hp_x0_lhs_median(i, gp.hp_info_optz_lkd, n)
        o = [outcome(gp, row, c['wc'] == 'precon') for row in sample]
        ev = []
        if any(x['good'] for x in o): ev.append(select(gp, i, n, tol='1e-6'))
        gp.lkd_optz_start_mtd = 'lhs'; gp.optz_n_x0 = n; gp.lkd_hp_best_n_eval = n + 3
        out, v, t = call(lambda: gp.select_hp_optz_x0(i, gp.hp_info_optz_lkd))
        ev.append(dict(ev='SelectAll', out=out, sel=S(v[0]) if out == 'ok' else [], sample=S(sample), lb=S(b.lb), ub=S(b.ub), lbb=S(v[1].lb) if v else [], ubb=S(v[1].ub) if v else [], _txt=t))
        tr.append(ev)
    return tr


def check(r):
    spec = lambda f: os.path.join(vf.SPEC, f)
    r.check_model('MC_HpBounds')
    for b in ('HpBounds_noclip', 'HpBounds_all', 'HpSelect_nocond', 'HpSelect_mincond'): r.expect_reject('MC_' + b.split('_')[0], spec(f'BAD_{b}.cfg'))
    cfg = 'MC_HpSelectL' if r.thorough else 'MC_HpSelect'
    rc, out = r.tlc('MC_HpSelect', spec(cfg + '.cfg'))
    cn = r.counts(out)
    if rc or not cn: raise vf.Machinery('MC_HpSelect: ' + out[-2000:])
    r.mc.append(dict(model=cfg, states=cn[0], transitions=cn[1]))
    T = [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'^"(\{.*\})"$', out, re.M)]
    rng = r.rng(); sd = lambda: int(rng.integers(1 << 62))
    r.extra['selection_outcomes'] = len(T)
    T = [T[int(i)] for i in rng.permutation(len(T))]
    tr = vf.pmap(_scripted, [(r.tmp, sd(), T[j:j + 60]) for j in range(0, len(T), 60)])
    r.validate('X0Trace', tr, None, 'selection for all outcomes of the samples')
    f = 8 if r.thorough else 1
    tr = [t for x in vf.pmap(_bounds, [(r.tmp, sd(), 10) for _ in range(30 * f)]) for t in x]
    r.validate('X0Trace', tr, None, 'bounds and samples for histories')
    tr = [t for x in vf.pmap(_real, [(r.tmp, sd(), 6) for _ in range(12 * f)]) for t in x]
    r.validate('X0Trace', tr, None, 'selection with the likelihood of the code')
    r.notes.append('samples for which every factorization fails are left out (the code refuses them); histories without missing values')
