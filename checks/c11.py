"""C11: the callbacks of the optimizer are pure functions of the vector (and the data)."""
import os
import numpy as np
import vf
from vf import S, call, quiet
import gpgen as G, life as L


def mk(tmp, c, lim, d, over):
    gp = G.mkgp(c, tmp)
    for k, v in over.items(): setattr(gp, k, v)
    if lim: gp.cond_max_abs = lim
    o = G.set_data(gp, d)
    if o[0] != 'ok': raise RuntimeError('data are refused: ' + o[2])
    return gp


class Cb:
    def __init__(self, tmp, rng, fails=None):
        self.rng, self.tmp = rng, tmp
        wc = ['base', 'base', 'precon', 'rescale_origin', 'rescale_eta_vary', 'dflt_vmax'][int(rng.integers(6))]
        ug = bool(rng.random() < .8); kern = G.KERNS[int(rng.integers(3))]
        noise = ['zz', 'kk', 'uu', 'uz', 'ku'][int(rng.integers(5))]
        self.c = c = G.cfg(kern, int(rng.integers(1, 3)), ug, wc, logth=bool(rng.random() < .7), logkern=bool(rng.random() < .7), logvar=bool(rng.random() < .7),
                           pnlt=bool(rng.random() < .3))
        self.over = dict(lkd_use_adj_mtd=bool(rng.random() < .5))
        if noise == 'zz' and c['wc'] != 'precon' and rng.random() < .3: c['norm'] = 'fro'
        # two sets of data with equal noise (so that the vectors mean the same), of equal or different size
        n = int(rng.integers(2, 4))
        self.pool = [G.data(rng, c, n, noise if ug else noise[0] + 'z'), G.data(rng, c, n if rng.random() < .5 else n + 1, noise if ug else noise[0] + 'z')]
        if rng.random() < .4: self.pool[1].x = self.pool[0].x.copy() if self.pool[1].f.size == n else self.pool[1].x     # only the values differ
        self.usecstr = c['wc'] != 'precon'
        gp = mk(tmp, c, None, self.pool[0], self.over)
        inf = gp.hp_info_optz_lkd
        self.vecs = []
        sc = float(gp.DataScl.obj_scale) if gp.b_use_data_scl else 1.0
        for _ in range(2):
            h = G.rand_hp(rng, gp, c, self.pool[0], .3, 3)
            hv = [*h.theta] + ([h.kernel] if inf.has_kernel else []) + ([h.varK] if inf.has_varK else []) + ([h.var_fval] if inf.has_var_fval else []) + ([h.var_fgrad] if inf.has_var_fgrad else [])
            hv = np.array([float(x) for x in hv])
            self.vecs.append(np.where(inf.bvec_log_optz, np.log10(hv), hv))
        if rng.random() < .15: self.vecs[1] = self.vecs[0] + 1e-9 * np.abs(self.vecs[0])          # nearly equal, but not the same
        self.lim = None
        if self.usecstr and (rng.random() < .4 if fails is None else fails):
            k = []
            for d in self.pool: k.append([float(mk(tmp, c, None, d, self.over).return_cond_val(v)) for v in self.vecs])
            lo, hi = sorted([max(a[j] for a in k) for j in (0, 1)]), sorted([min(a[j] for a in k) for j in (0, 1)])
            self.lim = (lo[0] * hi[1]) ** .5 if rng.random() < .7 and lo[0] < .99 * hi[1] else min(min(a) for a in k) * .5
        self.gp = mk(tmp, c, self.lim, self.pool[0], self.over)
        self.d = 0; self.buf = self.vecs[0].copy(); self.last = []
        self.tr = [dict(ev='New', nd=2, nv=2)]
        for d in (0, 1):
            for v in (0, 1): self.tr.append(self.ref(d, v))

    def ref(self, d, v):
        f = lambda: mk(self.tmp, self.c, self.lim, self.pool[d], self.over)
        x = self.vecs[v]; e = dict(ev='Ref', d=d + 1, v=v + 1, usecstr=self.usecstr, val='none', grad='none', cond='none', cgrad='none', cond1='none', fail=False)
        def go():
            with quiet():
                g = f(); e.update(val=S(g.return_optz_val(x.copy())))
                e.update(grad=S(f().return_optz_grad(x.copy())))
                if self.usecstr: e.update(cond=S(f().return_cond_val(x.copy())), cgrad=S(f().return_cond_grad(x.copy())))
                g = f(); e.update(cond1=S(g.calc_store_likelihood(x.copy(), always_calc_cond=True)[2]))
                e['fail'] = not bool(f().calc_lkd_all(g.hp_vec2dataclass(g.hp_info_optz_lkd, x), calc_cond=True)[1])
        o, _, t = call(go); e.update(out=o, _txt=t)
        return e

    def step(self, name, k):
        gp, rng = self.gp, self.rng
        if name == 'Data':
            self.d = k - 1; o = G.set_data(gp, self.pool[self.d])
            if o[0] != 'ok': self.tr.append(dict(ev='Cb', f='data', v=1, d=self.d + 1, got=[], out='exc', usecstr=self.usecstr, _txt=o[2]))
        elif name == 'Spoil':
            for a in self.last:
                if isinstance(a, np.ndarray):
                    try: a += 17.5
                    except ValueError: pass
        else:
            f, v, inplace = k
            if not self.usecstr and f in ('cond', 'cgrad'): f = 'val' if f == 'cond' else 'grad'
            if inplace: x = self.buf; x[:] = self.vecs[v - 1]
            else:
                x = self.vecs[v - 1].copy()
                if rng.random() < .15: x = x[None, :]
            if f in ('cond', 'cgrad') and rng.random() < .3: f = {'cond': 'nlc', 'cgrad': 'nlcgrad'}[f]
            fs = dict(val=lambda: gp.return_optz_val(x), grad=lambda: gp.return_optz_grad(x), cond=lambda: gp.return_cond_val(x), cgrad=lambda: gp.return_cond_grad(x),
                      nlc=lambda: gp.condnum_nlc.fun(x), nlcgrad=lambda: gp.condnum_nlc.jac(x), store=lambda: gp.calc_store_likelihood(x),
                      storeval=lambda: gp.calc_store_likelihood(x, calc_grad=False), storecond=lambda: gp.calc_store_likelihood(x, always_calc_cond=True))
            o, r, t = call(fs[f])
            e = dict(ev='Cb', f=f, v=v, d=self.d + 1, got=[], out=o, usecstr=self.usecstr, _txt=t)
            if o == 'ok':
                self.last = list(r) if isinstance(r, tuple) else [r]
                e['got'] = [S(a) for a in self.last]
            self.tr.append(e)


def _one(a):
    tmp, seed, ws = a
    rng = np.random.default_rng(seed); tr = []
    for w in ws:
        for _ in range(20):
            p = Cb(tmp, rng)
            if all(e['out'] == 'ok' and 'nan' not in repr(e) for e in p.tr[1:]): break
        for name, k, _ in w: p.step(name, k)
        tr.append(p.tr)
    return tr


def through(s):
    """The values that the callbacks give, as an event for GPTrace."""
    gp = s.gp; v = s.vec(); cond = s.c['wc'] != 'precon'; v0 = v.copy()
    other = v + s.rng.uniform(-.05, .05, v.size) * np.abs(v)
    def f():
        seq = list(s.rng.permutation(['val', 'grad', 'cond', 'cgrad'] if cond else ['val', 'grad'])); out = {}
        for n in seq:
            gp.return_optz_val(other)
            out[n] = dict(val=gp.return_optz_val, grad=gp.return_optz_grad, cond=gp.return_cond_val, cgrad=gp.return_cond_grad)[n](v)
        return out
    o, r, t = call(f)
    e = dict(ev='Grad', v=S(v0), out=o, condreq=cond, fault=False, lkd='none', grad='none', cgrad='none', cond='none', _txt=t, _w=12 * len(v))
    if o == 'ok': e.update(lkd=S(-r['val']), grad=S(-r['grad']), cond=S(r['cond']) if cond else 'none', cgrad=S(r['cgrad']) if cond else 'none')
    return e


def check(r):
    spec = lambda f: os.path.join(vf.SPEC, f + '.cfg')
    for m in ('none', 'copy'): r.check_model('MC_Callbacks', spec(f'MC_Callbacks_{m}'))
    for m in ('ref', 'stale', 'nograd', 'alias'): r.expect_reject('MC_Callbacks', spec(f'BAD_Callbacks_{m}'))
    rng = r.rng(); jobs = []
    for d, n in ((1, 12 if r.thorough else 4), (2, 6 if r.thorough else 1)):
        rc, out = r.tlc('MC_Callbacks', spec(f'MC_CallbacksTour{d}'))
        cn = r.counts(out)
        if rc or not cn: raise vf.Machinery('MC_Callbacks: ' + out[-2000:])
        r.mc.append(dict(model=f'MC_CallbacksTour{d}', states=cn[0], transitions=cn[1]))
        E = L.edges(out)
        ws = [w for _ in range(n) for w in L.walks(E, rng, 250 if d == 1 else 350, limit=None if d == 1 or r.thorough else 14000)]
        jobs += [(r.tmp, int(rng.integers(1 << 62)), ws[j:j + 3]) for j in range(0, len(ws), 3)]
    r.extra['sequences_of_calls'] = sum(len(j[2]) for j in jobs)
    tr = [t for x in vf.pmap(_one, jobs, procs=7) for t in x]
    r.validate('CbTrace', tr, None, 'sequences of callbacks')
    # the values are those of the specification
    tr = []
    rng = r.rng('values')
    for q in range(60 if r.thorough else 14):
        wc = ['base', 'precon', 'rescale_origin', 'dflt_vmin'][q % 4]
        s = G.Scen(r, rng, G.KERNS[q % 3], 1 + q % 2, 2, bool(q % 5), wc, ['zz', 'kk', 'uz', 'uu'][q % 4 if q % 5 else 0], logth=bool(rng.random() < .7), logvar=bool(rng.random() < .7))
        tr.append([s.case(), through(s)] if s.ok else [s.case()])
    r.validate('GPTrace', tr, [r'grad-.*'], 'values of the callbacks')
