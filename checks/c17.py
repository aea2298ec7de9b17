"""C17: batches, order and options of an evaluation."""
import numpy as np
from vf import S, call, quiet
import gpgen as G
from c12 import scens

NM = ['mu', 'sig', 'dmu', 'dsig', 'd2mu', 'd2sig']


def check(r):
    rng = r.rng(); tr = []
    for i, s in enumerate(scens(r, rng, 5 if not r.thorough else 80, nmax=4)):
        if not s.ok: tr.append([s.case()]); continue
        gp = s.gp; e = [s.case()]
        o, _, t = s.setup()
        if o != 'ok': tr.append(e + [dict(ev='Bad', what='setup', text=t)]); continue
        nx = int(rng.integers(2, 7)); X = s.points(nx)
        if i % 2:            # some points very close to the data, one far away
            span = np.maximum(np.ptp(s.d.x, axis=0), .3)
            for j in range(nx - 1):
                if rng.random() < .6:
                    u = rng.normal(size=s.c['dim']); X[j] = s.d.x[int(rng.integers(s.d.x.shape[0]))] + u / np.linalg.norm(u) * span * 10.0 ** -int(rng.integers(1, 4))
            if rng.random() < .5: X[-1] = s.d.x[0] + 30 * span
            X = X[rng.permutation(nx)]
        # differences between a batch and its points are rounding errors, amplified by at most the inverse of the smallest eigenvalue
        K = np.asarray(getattr(gp, 'KernEta', np.diag([1.0, 1e-10]))); dg = 1 / np.sqrt(np.diag(K))
        lam = min(np.linalg.eigvalsh(K)[0], np.linalg.eigvalsh(dg[:, None] * K * dg)[0])
        tol = min(1e-7, 3e-14 * K.shape[0] * (1 + 1 / lam)) if lam > 0 else 1e-7
        tolm = min(1e-7, 1e-15 * K.shape[0] * (1 + 1 / lam)) if lam > 0 else 1e-7
        ymax = float(max(np.max(np.abs(s.d.f)), np.max(np.abs(s.d.g)) if s.d.ug else 0))
        ev = lambda x, **k: call(lambda: gp.eval_model(x, **k))
        X0 = X.copy()
        ref = ev(X, calc_grad=True)
        prior = float(np.sqrt(np.ravel(s.h.varK)[0])) / (float(gp.DataScl.obj_scale) if gp.b_use_data_scl else 1.0)
        nat = float(np.max(np.sqrt(s.h.theta) * (gp.DataScl.xvec_scale if gp.b_use_data_scl else 1.0)))      # scale of the derivatives of the kernel
        bigs = {3: prior * nat, 5: prior * nat ** 2}
        def same(what, A, B, idx, at='1e-9'):
            def conv(A):    # deviations are compared as variances, relative to the prior
                if A[0] != 'ok': return A
                v = list(A[1])
                if len(v) == 6 or (len(v) == 4 and v[1] is not None):
                    sg = np.asarray(v[1]) / prior
                    for k, d in ((3, 1), (5, 2)):
                        if len(v) > k and v[k] is not None: v[k] = np.asarray(v[k]) * sg.reshape(sg.shape + (1,) * d) ** (2 * d - 1)
                    v[1] = sg ** 2
                return (A[0], v, '')
            if what[:3] != 'var': A, B = conv(A), conv(B)
            for k in idx:
                if what[:4] == 'var-' and A[0] == B[0] == 'ok' and np.shape(A[1][k]) == np.shape(B[1][k]):
                    d = float(np.max(np.abs(np.asarray(A[1][k]) - np.asarray(B[1][k]))))
                    e.append(dict(ev='Le', what=f'batch-{what}-{k}', a=S(d), b=S(tol * prior ** 2 * (1 if k == 0 else nat)))); continue
                if A[0] == B[0] == 'ok' and what[:3] != 'var' and k in (1, 3, 5):
                    d = np.asarray(A[1][k]) - np.asarray(B[1][k]) if np.shape(A[1][k]) == np.shape(B[1][k]) else np.nan
                    big = max([1.0 if k == 1 else 0] + [float(np.max(np.abs(B[1][k])))] + ([bigs[k]] if k in bigs else []))
                    e.append(dict(ev='Le', what=f'batch-{what}-{NM[k]}', a=S(float(np.max(np.abs(d)))), b=S(0.0 if at == '0' else tol * big)))
                    continue
                if A[0] == B[0] == 'ok' and what[:3] != 'var' and at != '0' and np.shape(A[1][k]) == np.shape(B[1][k]):    # mean: the weights of the data are up to the data / smallest eigenvalue
                    d = np.asarray(A[1][k]) - np.asarray(B[1][k])
                    e.append(dict(ev='Le', what=f'batch-{what}-{NM[k]}', a=S(float(np.max(np.abs(d)))), b=S(max(1e-9 * float(np.max(np.abs(B[1][k]))), tolm * ymax * nat ** (k // 2))))); continue
                e.append(dict(ev='Same', what=f'batch-{what}-{NM[k]}', oa=A[0], ob=B[0], a=S(A[1][k]) if A[0] == 'ok' else 'none',
                              b=S(B[1][k]) if B[0] == 'ok' else 'none', rt='1e-9', at=at))
        sel = lambda B, f: (B[0], [None if v is None else f(v) for v in B[1]] if B[0] == 'ok' else None, '')
        same('again', ev(X, calc_grad=True), ref, range(4), '0')
        e.append(dict(ev='Same', what='batch-input', oa='ok', ob='ok', a=S(X), b=S(X0), rt='0', at='0'))
        same('nograd', ev(X), ref, range(2))
        for k in G.FORMS[1:5] if i % 3 == 0 else [G.FORMS[1 + i % 4]]:
            XF = G.form(X, k); same('form', ev(XF, calc_grad=True), ref, range(4))
            e.append(dict(ev='Same', what='batch-input', oa='ok', ob='ok', a=S(XF), b=S(X0), rt='0', at='0'))
        XM = X[rng.permutation(nx)].copy(); ev(XM, calc_grad=True); XM[...] = X         # the caller fills the array that it handed over
        same('filled', ev(XM, calc_grad=True), ref, range(4), '0')
        XI = np.round(s.d.x[:2] + rng.integers(-1, 2, (len(s.d.x[:2]), s.c['dim']))) + 0.0
        same('form', ev(XI.astype(int), calc_grad=True, calc_hess=True) if len(XI) == 1 else ev(XI.astype(int), calc_grad=True), ev(XI, calc_grad=True, calc_hess=True) if len(XI) == 1 else ev(XI, calc_grad=True), range(4))
        p = rng.permutation(nx)
        same('perm', ev(X[p], calc_grad=True), sel(ref, lambda v: v[p]), range(4))
        q = rng.integers(0, nx, nx + 3)
        same('dup', ev(X[q], calc_grad=True), sel(ref, lambda v: v[q]), range(4))
        for j in range(min(nx, 3)):
            one = ev(X[j:j + 1], calc_grad=True)
            same('single', one, sel(ref, lambda v: v[j:j + 1]), range(4))
            h = ev(X[j:j + 1], calc_grad=True, calc_hess=True)
            same('hess', h, sel(ref, lambda v: v[j:j + 1]), range(4))
            same('flat', ev(X[j], calc_grad=True, calc_hess=True), h, range(6))          # a single point may be given as a vector
            sq = ev(X[j:j + 1], calc_grad=True, calc_hess=True, squeeze_nx=True)
            same('squeeze', sq, sel(h, lambda v: v[0]), range(6))
        same('after', ev(X, calc_grad=True), ref, range(4), '0')
        if i % 4 == 0:       # many points
            XL = s.points(int(rng.choice([17, 33, 65, 129, 200]))); big_ = ev(XL, calc_grad=True); nL = len(XL)
            for j in [0, nL // 2, nL - 2, nL - 1]: same('many', ev(XL[j:j + 1], calc_grad=True), sel(big_, lambda v: v[j:j + 1]), range(4))
            pL = rng.permutation(nL)
            same('many-perm', ev(XL[pL], calc_grad=True), sel(big_, lambda v: v[pL]), range(4))
            k = int(rng.integers(1, nL))
            same('many-cut', ev(XL[k:], calc_grad=True), sel(big_, lambda v: v[k:]), range(4))
            same('many-nograd', ev(XL), big_, range(2))
            if not gp.b_use_data_scl:
                bigv = call(lambda: gp.eval_model_var(XL, calc_grad=True))
                for j in [0, nL - 1]: same('var-many', call(lambda: gp.eval_model_var(XL[j:j + 1], calc_grad=True)), sel(bigv, lambda v: v[j:j + 1]), range(2))
        if not gp.b_use_data_scl:
            vv = lambda x, **k: call(lambda: gp.eval_model_var(x, **k))
            b = vv(X, calc_grad=True)
            same('var', (b[0], [np.sqrt(np.maximum(b[1][0], 0)), b[1][0]] if b[0] == 'ok' else None), (ref[0], [ref[1][1]] if ref[0] == 'ok' else None), [0], '1e-6')
            same('var-perm', vv(X[p], calc_grad=True), sel(b, lambda v: v[p]), range(2))
            same('var-single', vv(X[:1], calc_grad=True), sel(b, lambda v: v[:1]), range(2))
            same('var-form', vv(G.form(X, G.FORMS[1 + i % 4]), calc_grad=True), b, range(2))
            XM = X[p].copy(); vv(XM, calc_grad=True); XM[...] = X
            same('var-filled', vv(XM, calc_grad=True), b, range(2))
            same('var-flat', vv(X[0], calc_grad=True), vv(X[:1], calc_grad=True), range(2))
            same('var-nograd', vv(X), b, [0])
            same('var-squeeze', vv(X[:1], calc_grad=True, squeeze_nx=True), sel(b, lambda v: v[0]), range(2))
        if i % 3 == 0: e.append(s.eval(X, grad=True))
        tr.append(e)
    r.validate('GPTrace', tr, ['data-accepted', 'batch-.*', 'eval-.*', 'evaluation-error'], 'batches')
    r.notes.append('2 to 6 (some up to 200) points per batch; agreement within 1e-9 of the largest entry')
