"""C02: gradients at a subset of the points."""
import itertools
import numpy as np
from vf import S, call, quiet
import gpgen as G


def check(r):
    rng = r.rng(); tr = []
    wcs = ['base', 'precon', 'rescale_origin', 'dflt_vmin']
    combos = list(itertools.product(G.KERNS, wcs))
    reps = 5 if not r.thorough else 25
    for rep in range(reps):
        for i, (kern, wc) in enumerate(combos):
            dim = int(rng.integers(1, 4)) if rep else 2; n = int(rng.integers(2, 5)) if dim < 3 else int(rng.integers(2, 4))
            if rep and rng.random() < .12: dim, n = int(rng.integers(4, 6)), 2
            elif rep and rng.random() < .12: dim, n = 1, int(rng.integers(5, 8))
            noise = G.NOISE[int(rng.integers(len(G.NOISE)))]
            if wc.startswith('resc') and rng.random() < .5: noise = 'zz'
            m = G.some_mask(rng, n)
            s = G.Scen(r, rng, kern, dim, n, True, wc, noise, m)
            if not s.ok: tr.append([s.case()]); continue
            e = [s.case(), s.noise(), s.mat(), s.mat(norm=True), s.lkd(adj=True), s.lkd(adj=False)]
            if rep == 0 or r.thorough: e.append(s.grad(adj=bool(i % 2)))
            o, _, t = s.setup()
            X = s.points(2, [int(np.argmin(m))])
            if o != 'ok': e.append(dict(ev='Bad', what='setup', text=t))
            else:
                e += [s.eval(X, grad=True), s.eval(X[1:], grad=True, hess=True, w=2)]
                if wc in ('base', 'precon'): e.append(s.eval(X, var=True, grad=True))
            tr.append(e)
            # every point selected: the same as no selection; permuted points: the same model
            t1 = same(r, rng, s)
            if t1: tr.append(t1)
    # more points than any small constant in the code might be made for
    for k in range(4 if not r.thorough else 20):
        kern = G.KERNS[k % 3]; wc = ['base', 'rescale_origin', 'precon', 'dflt_vmin'][(k + k // 4) % 4]
        dim = int(rng.integers(1, 4)); n = int(rng.integers(8, 17))
        m = G.some_mask(rng, n)
        s = G.Scen(r, rng, kern, dim, n, True, wc, ['kk', 'zk', 'kz'][k % 3], m)
        if not s.ok: tr.append([s.case()]); continue
        e = [s.case(), s.noise(), s.mat(norm=bool(k % 2)), s.lkd(adj=True)]
        o, _, t = s.setup()
        e.append(dict(ev='Bad', what='setup', text=t) if o != 'ok' else s.eval(s.points(2, [int(np.argmin(m))]), grad=True))
        tr.append(e)
        t1 = same(r, rng, s)
        if t1: tr.append(t1)
    r.validate('GPTrace', tr, ['data-accepted', 'mat-.*', 'noise-.*', 'lkd-.*', 'grad-.*', 'eval-.*', 'same-.*', 'case-xs', 'evaluation-error'], 'gradients at some points')
    r.notes.append('2 to 16 points, 1 to 5 dimensions; tolerances proportional to the condition number')


def outputs(gp, h, X):
    def f():
        gp.set_hpara('set', 1, hp_vals=h)
        a = gp.eval_model(X, calc_grad=True); b = gp.eval_model_var(X, calc_grad=True) if not gp.b_use_data_scl else a[:2]
        L = gp.calc_lkd_all(h, calc_cond=True)[0]
        return [a[0], a[1], a[2], a[3], b[0], b[1], np.array([L.ln_lkd, float(np.ravel(L.hp_beta)[0]), L.cond])]
    return call(f)


def same(r, rng, s):
    d = s.d; n = d.f.size
    X = s.points(3)
    ev = []
    def cmp(what, A, B, tol):
        for k, nm in enumerate(['mu', 'sig', 'dmu', 'dsig', 'sig2', 'dsig2', 'lkd']):
            ev.append(dict(ev='Same', what=f'same-{what}', oa=A[0], ob=B[0], a=S(A[1][k]) if A[0] == 'ok' else 'none',
                           b=S(B[1][k]) if B[0] == 'ok' else 'none', rt='0', at=tol, _f=nm))
    # all points selected
    full = G.data(rng, s.c, n, 'kk', None); full.x = d.x
    gps = []
    for mask in (None, np.ones(n, bool)):
        full.mask = mask
        g = G.mkgp(s.c, r.tmp); o = G.set_data(g, full)
        if o[0] != 'ok': return [dict(ev='Bad', what='set_data', text=o[2])]
        gps.append(g)
    h = G.rand_hp(rng, gps[0], s.c, full)
    cmp('all', outputs(gps[0], h, X), outputs(gps[1], h, X), '1e-6')
    # other order of the points (the last one stays: it is the origin of the methods that rescale)
    p = np.append(rng.permutation(n - 1), n - 1)
    if s.d.g is not None and n > 2:
        import copy
        q = copy.copy(d)
        rank = np.cumsum(d.mask) - 1
        rows = [int(rank[i]) for i in p if d.mask[i]]
        q.x, q.f, q.mask = d.x[p], d.f[p], d.mask[p]
        q.sf = None if d.sf is None else d.sf[p]
        q.g = d.g[rows]; q.sg = None if d.sg is None else d.sg[rows]
        g2 = G.mkgp(s.c, r.tmp); o = G.set_data(g2, q)
        if o[0] != 'ok': return [dict(ev='Bad', what='set_data', text=o[2])]
        cmp('order', outputs(s.gp, s.h, X), outputs(g2, s.h, X), '1e-6')
    return ev
