"""C18: bounds of the variance, interpolation, monotonicity."""
import copy
import numpy as np
from vf import S, call, quiet
import gpgen as G
from c12 import scens


def check(r):
    rng = r.rng(); tr = []
    for i, s in enumerate(scens(r, rng, 4 if not r.thorough else 60, nmax=4)):
        if not s.ok: tr.append([s.case()]); continue
        gp, d, c = s.gp, s.d, s.c; e = [s.case()]; n = d.f.size
        if rng.random() < .3:   # long lengthscales: less well conditioned
            s.h.theta = s.h.theta * 0.05
        o, _, t = s.setup()
        if o != 'ok': tr.append(e + [dict(ev='Bad', what='setup', text=t)]); continue
        X = np.vstack([s.points(4), d.x + 1e-7 * rng.standard_normal(d.x.shape)])
        e.append(s.eval(X))
        if not gp.b_use_data_scl: e.append(s.eval(X, var=True))
        if not d.noisy():
            for k in range(n):
                o2, v, t2 = call(lambda: gp.eval_model(d.x[k:k + 1], calc_grad=True))
                ev = dict(ev='Interp', i=k + 1, h=G.hprec(s.h), out=o2, mu='nan', sig='nan', dmu='none', _txt=t2)
                if o2 == 'ok': ev.update(mu=S(v[0][0]), sig=S(v[1][0]), dmu=S(v[2][0]))
                e.append(ev)
        if c['kern'] != 'RatQu':
            far = d.x[-1:] + 1e3 * np.where(rng.random((2, c['dim'])) < .5, -1, 1) * np.ptp(np.vstack([d.x, d.x[:1] + 1]), axis=0).max()
            o3, v, t3 = call(lambda: gp.eval_model(far))
            e.append(dict(ev='Far', h=G.hprec(s.h), out=o3, mu=S(v[0]) if o3 == 'ok' else 'none', sig=S(v[1]) if o3 == 'ok' else 'none', _txt=t3))
        # fewer data: one point less (an early one: the last is the origin), or without the gradients
        if c['wc'] in ('base', 'precon') and n > 1:
            gpe = G.mkgp(dict(c, etaset='dflt_eta'), r.tmp); gpe.cond_eta_is_const = True
            G.set_data(gpe, d); a = call(lambda: (gpe.set_hpara('set', 1, hp_vals=s.h), gpe.eval_model(X)[1])[1])
            q = copy.copy(d); q.x, q.f = d.x[1:], d.f[1:]
            q.sf = None if d.sf is None else d.sf[1:]
            if d.ug:
                first = d.mask is None or d.mask[0]
                q.g = d.g[1:] if first else d.g; q.sg = None if d.sg is None else (d.sg[1:] if first else d.sg)
                q.mask = None if d.mask is None else d.mask[1:]
            if q.g is None or len(q.g):
                gq = G.mkgp(dict(c, etaset='dflt_eta'), r.tmp); gq.cond_eta_is_const = True
                oq = G.set_data(gq, q)
                b = call(lambda: (gq.set_hpara('set', 1, hp_vals=s.h), gq.eval_model(X)[1])[1]) if oq[0] == 'ok' else oq
                if a[0] == b[0] == 'ok':
                    for u, w in zip(a[1], b[1]):
                        e.append(dict(ev='Le', what='monotone-points', a=S(float(u) ** 2), b=S(float(w) ** 2 + 1e-5 * float(np.ravel(s.h.varK)[0]))))
        tr.append(e)
    r.validate('GPTrace', tr, ['data-accepted', 'eval-bounds', 'eval-mu', 'eval-sig', 'eval-sig2', 'eval-outcome', 'interp-.*', 'far-.*', 'monotone-.*', 'evaluation-error'], 'uncertainty')
    r.notes.append('1 to 4 points, 1 to 3 dimensions, moderate lengthscales; tolerances from the condition number')
