"""C15: predictions of surrogates that rescale the data."""
import copy
import numpy as np
from vf import S, call, quiet
import gpgen as G
from c12 import scens


def evalall(s, X):
    def f():
        a = s.gp.eval_model(X, calc_grad=True)
        b = s.gp.eval_model(X[:1], calc_grad=True, calc_hess=True)
        return [a[0], a[1], a[2], a[3], b[4], b[5]]
    return call(f)


def maps(s, d, part):
    """The maps of points and values, with some of the values absent."""
    n = 2; dim = s.c['dim']; g = s.rng
    m = [10 ** g.uniform(-2, 2) * g.normal(size=z) if g.random() < .8 or not part else None for z in ((n,), (n,), (n, dim), (n, dim), (n, dim, dim), (n, dim, dim))]
    x = s.points(n) if d == 'scl' else g.normal(size=(n, dim)) * 10
    o, v, t = call(lambda: (s.gp.x_init_2_scl(x.copy()), s.gp.data_init_2_scl(*m)) if d == 'scl' else (s.gp.x_scl_2_init(x.copy()), s.gp.data_scl_2_init(*m)))
    a = dict(x=S(x), v=[S(q) for q in m]); b = dict(x=S(v[0]), v=[S(q) for q in v[1]]) if o == 'ok' else dict(x='none', v=[])
    if d != 'scl': a, b = b, a
    return dict(ev='Map', dir=d, out=o, x=a['x'], v=a['v'], xm=b['x'], vm=b['v'], _txt=t)


def given(r, s):
    """The mean for other data and hyperparameters than those of the object."""
    g = s.rng; c = s.c; n2 = int(g.integers(1, 5))
    s2 = G.Scen(r, g, c['kern'], c['dim'], n2, c['ug'], 'precon' if c['ug'] and g.random() < .3 else 'base', ['zz', 'kk', 'uk', 'zk'][int(g.integers(4))], target='1e7')
    if not s2.ok: return s2.case()
    s2.h.kernel = s.h.kernel; th = None
    if g.random() < .3: s2.h.theta = s.h.theta * 1
    else: th = s2.h.theta * 1
    o, _, t = s2.setup()
    if o != 'ok': return dict(ev='Bad', what='setup', text=t)
    scl, grad, d = bool(g.random() < .5), bool(g.random() < .7), s2.d
    gp = s.gp; X = s2.points(2); X0 = gp.x_scl_2_init(X); fac, b = s2.gp.KernEta_chofac, s2.h.beta
    if scl: f = lambda: gp.calc_model_mean_w_data_scl(X, fac, b, d.x, d.f, d.g, theta=th, calc_grad=grad)
    else:
        m = gp.data_scl_2_init(d.f, None, d.g)
        f = lambda: gp.calc_model_mean_w_data_init(X0, fac, b, gp.x_scl_2_init(d.x), m[0], m[2], theta=th, calc_grad=grad)
    o, v, t = call(f)
    return dict(ev='Mean', c2=s2.c, d2=d.rec(), h=G.hprec(s2.h), x=S(X0), out=o, grad=grad, mu=S(v[0]) if o == 'ok' else 'none', dmu=S(v[1]) if o == 'ok' else 'none', _txt=t, _w=8)


def check(r):
    rng = r.rng(); tr = []
    for i, s in enumerate(scens(r, rng, 4 if not r.thorough else 60, wcs=('rescale_origin', 'rescale_eta_vary', 'dflt_vmin', 'dflt_vmax'), nmax=3, ugp=1.0,
                                vdflt='0.7', vrescale='1.6')):
        if not s.ok: tr.append([s.case()]); continue
        xs0 = True
        if i % 2 and s.d.f.size > 1:            # a scaling that differs from coordinate to coordinate
            v = rng.uniform(.4, 2.5, s.c['dim'])
            o, _, t = call(lambda: s.gp.DataScl.set_xscale_data(xvec_scale_in=v))
            xs0 = False
            if o != 'ok': tr.append([dict(ev='Bad', what='set_xscale_data', text=t)]); continue
        e = [s.case(xs0=xs0)]
        e += [maps(s, d, i % 3) for d in ('scl', 'init')]
        o, _, t = s.setup()
        if o != 'ok': tr.append(e + [dict(ev='Bad', what='setup', text=t)]); continue
        X = s.points(3)
        # the helper for the mean with data that are given (here those of the model: it has to be the model's mean)
        if s.d.mask is None and i % 2 == 0:
            o3, v3, t3 = call(lambda: s.gp.calc_model_mean_w_data_init(X, s.gp.KernEta_chofac, s.gp.hp_vals.beta, s.d.x, s.d.f, s.d.g))
            o4, v4, t4 = call(lambda: s.gp.eval_model(X, calc_grad=True))
            o5, v5, t5 = call(lambda: s.gp.calc_model_mean_w_data_init(X, s.gp.KernEta_chofac, s.gp.hp_vals.beta, s.d.x, s.d.f, s.d.g, theta=s.gp.hp_vals.theta * 1, calc_grad=False)[0])
            e.append(dict(ev='Same', what='helper-mu', oa=o5, ob=o4, a=S(v5) if o5 == 'ok' else 'none', b=S(v4[0]) if o4 == 'ok' else 'none', rt='1e-6', at='1e-6', _txt=t5))
            for k, kk in ((0, 0), (1, 2)):
                e.append(dict(ev='Same', what=f'helper-{"mu" if k == 0 else "dmu"}', oa=o3, ob=o4, a=S(v3[k]) if o3 == 'ok' else 'none', b=S(v4[kk]) if o4 == 'ok' else 'none', rt='1e-6', at='1e-6', _txt=t3))
        e.append(given(r, s))
        e += [s.noise(), s.eval(X, grad=True), s.eval(X[1:2], grad=True, hess=True, w=2)]
        # other units: x -> A x + b, f -> a f + c
        if s.d.f.size > 1 and xs0:
            A = float(10 ** rng.uniform(-3, 3)); b = rng.normal(0, 3, s.c['dim']) * A; a = float(10 ** rng.uniform(-4, 4)); cc = float(rng.normal(0, 10)) * a
            q = copy.copy(s.d)
            q.x = s.d.x * A + b; q.f = s.d.f * a + cc
            q.sf = None if s.d.sf is None else s.d.sf * a
            if s.d.ug: q.g = s.d.g * a / A; q.sg = None if s.d.sg is None else s.d.sg * a / A
            if s.d.noisy() and min([v.max() for v in (q.sf, q.sg) if v is not None and v.max() > 0] + [1]) < 1e-8: tr.append(e); continue   # would be taken for noise-free
            s2 = G.Scen(r, rng, s.c['kern'], s.c['dim'], 0, s.c['ug'], s.c['wc'], data_=q, **{k: v for k, v in s.c.items() if k not in ('kern', 'dim', 'ug', 'wc')})
            if not s2.ok: e.append(dict(ev='Bad', what='set_data', text=s2.set_out[2])); tr.append(e); continue
            s2.h = s.h; o2, _, t2 = s2.setup()
            if o2 != 'ok': e.append(dict(ev='Bad', what='setup', text=t2)); tr.append(e); continue
            u, w = evalall(s, X), evalall(s2, X * A + b)
            for k, nm in enumerate(['mu', 'sig', 'dmu', 'dsig', 'd2mu', 'd2sig']):
                sc = [1, 1, A, A, A * A, A * A][k] / a
                sh = cc if k == 0 else 0
                e.append(dict(ev='Same', what=f'units-{nm}', oa=u[0], ob=w[0], a=S(u[1][k]) if u[0] == 'ok' else 'none',
                              b=S((w[1][k] - sh) * sc) if w[0] == 'ok' else 'none', rt='1e-5', at='1e-5'))
        tr.append(e)
    for s in scens(r, rng, 2 if not r.thorough else 10, wcs=('base', 'precon'), nmax=3):
        if s.ok: tr.append([s.case()] + [maps(s, d, p) for d in ('scl', 'init') for p in (0, 1)] + ([given(r, s)] if s.setup()[0] == 'ok' else []))
        else: tr.append([s.case()])
    r.validate('GPTrace', tr, ['map-.*', 'data-accepted', 'case-xs', 'noise-.*', 'eval-.*', 'units-.*', 'helper-.*', 'evaluation-error'], 'rescaled predictions')
    r.notes.append('1 to 3 points, 1 to 3 dimensions; units changed by 1e-4..1e4')
