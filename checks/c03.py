"""C03: condition number and factorization."""
import numpy as np
from vf import S, call, quiet
import gpgen as G
from c12 import scens


def bound_event(gp, c, h):
    o, v, t = call(lambda: gp.calc_all_K_w_chofac(gp.get_scl_x_w_dist()[1], h, calc_cond=True) if gp.b_has_noisy_data
                   else gp.calc_Kern_w_chofac(gp.get_scl_x_w_dist()[1], h, calc_cond=True))
    e = dict(ev='Bound', out=o, hasfac=False, cond='nan', cond2='nan', res='nan', _txt=t)
    if o == 'ok':
        cov, fac, cond = v[2], v[3], v[4]
        e['hasfac'] = fac is not None; e['cond'] = S(cond)
        s = np.sqrt(np.diag(cov)) if c['wc'] == 'precon' else np.ones(len(cov))
        A = cov / np.outer(s, s)
        w = np.linalg.eigvalsh(A); e['cond2'] = S(float(w[-1] / w[0]))
        if fac is not None:
            L = np.tril(fac[0]) if fac[1] else np.triu(fac[0]).T
            d = np.sqrt(np.diag(cov))
            e['res'] = S(float(np.max(np.abs((L / d[:, None]) @ (L / d[:, None]).T - cov / np.outer(d, d)))))
    return e


def check(r):
    r.check_model('MC_Nugget', workers=2)
    rng = r.rng(); tr = []
    for i, s in enumerate(scens(r, rng, 5 if not r.thorough else 60)):
        if not s.ok: tr.append([s.case()]); continue
        e = [s.case(), s.mat(), s.mat(norm=True)]
        if i % 3 == 0: e.append(s.mat(h=G.rand_hp(rng, s.gp, s.c, s.d, 1e-3, 30.0)))
        if i % 5 == 0:
            s.gp.cond_norm = 'fro'; s.c = dict(s.c, norm='fro')
            e += [s.case(), s.mat(bound=False)]
        tr.append(e)
    # the bound, for adversarial points and lengthscales
    for i in range(60 if not r.thorough else 1500):
        kern = G.KERNS[i % 3]; dim = int(rng.integers(1, 6)); n = int(rng.integers(1, 25 if dim < 4 else 12))
        kind = ['precon', 'precon', 'free', 'vary'][int(rng.integers(4))]
        ug = kind != 'free'
        target = str(rng.choice(['1e10', '1e10', '1e6', '1e3', '1e12']))
        c = G.cfg(kern, dim, ug, 'precon' if kind != 'free' and rng.random() < .8 else 'base', target=target, etaconst=kind != 'vary')
        if ug and c['wc'] == 'base': c['etaconst'] = False
        noise = ['zz', 'kk', 'kz', 'zk', 'uu'][int(rng.integers(5))] if c['wc'] == 'precon' else 'zz'
        d = G.data(rng, c, n, noise, G.some_mask(rng, n) if ug and n > 1 and rng.random() < .4 else None, level=float(10.0 ** rng.integers(-6, 2)))
        if n > 1:
            u = rng.random()
            if u < .3: d.x = d.x[0] + (d.x - d.x[0]) * 1e-7              # all points nearly coincide
            elif u < .6: d.x[1] = d.x[0] + 1e-9 * rng.standard_normal(dim)
            elif u < .7: d.x = np.round(rng.uniform(-2, 2, (n, dim))) + 1e-3 * rng.standard_normal((n, dim))   # lattice
        gp = G.mkgp(c, r.tmp); gp.cond_max = float(target)
        o = G.set_data(gp, d)
        if o[0] != 'ok': tr.append([dict(ev='Bad', what='set_data', text=o[2])]); continue
        e = [G.case(gp, c, d)]
        for j in range(6):
            u = rng.random()
            h = G.rand_hp(rng, gp, c, d)
            if u < .35: h.theta = 10 ** rng.uniform(-10, 10, dim)
            elif u < .7: h.theta = 10 ** rng.uniform(-2, 2, dim) * 10.0 ** rng.integers(-8, 3)
            else: # lengthscales that suit the distances of these points: where the largest eigenvalue peaks
                D = np.sqrt(((d.x[:, None] - d.x[None]) ** 2).sum(-1)); D = D[D > 1e-12]
                h.theta = np.full(dim, rng.uniform(.05, 1.5) / np.median(D) ** 2 if len(D) else 1.0)
            if kern == 'RatQu': h.kernel = float(10 ** rng.uniform(-1.5, 3))
            h.varK = float(10 ** rng.uniform(-6, 6))
            e.append(bound_event(gp, c, h))
        tr.append(e)
    r.validate('GPTrace', tr, ['data-accepted', 'mat-.*', 'bound-.*', 'evaluation-error'], 'covariance matrices')
    r.notes.append('assembly: 1 to 4 points; bound: up to 24 points, 5 dimensions, theta 1e-10..1e10, alpha 0.03..1000')
