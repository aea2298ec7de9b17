"""C19: noise."""
import numpy as np
from vf import S, call, quiet
import gpgen as G


def check(r):
    rng = r.rng(); tr = []
    j = 0
    for rep in range(3 if not r.thorough else 40):
        for noise in G.NOISE:
            for ug in (True, True, True, False):
                if not ug and noise[1] != 'z': continue
                kern = G.KERNS[j % 3]; wc = ['base', 'precon', 'rescale_origin', 'dflt_vmax'][j % 4 if rep % 2 == 0 else int(rng.integers(4))]; j += 1
                dim = 1 + j % 3; n = int(rng.integers(1, 4))
                c = G.cfg(kern, dim, ug, wc)
                mask = G.some_mask(rng, n) if ug and n > 1 and rng.random() < .4 else None
                d = G.data(rng, c, n, noise if ug else noise[0] + 'z', mask, level=float(10 ** rng.uniform(-3, 0)))
                if rng.random() < (.6 if 'z' in noise else .3) and 'k' in noise:      # little noise, large values
                    q = 10 ** rng.uniform(-9.7, -5)
                    if noise[0] == 'k': d.sf[:] = q * rng.uniform(1, 2, n)
                    if noise[1] == 'k' and ug: d.sg[:] = q * rng.uniform(1, 2, d.sg.shape)
                    q = 10 ** rng.uniform(2, 6); d.f = d.f * q
                    if ug: d.g = d.g * q
                u = rng.random()
                if noise[0] == 'k' and n > 1 and u < .5: d.sf[int(rng.integers(n))] = 0.0            # some values are exact
                if ug and noise[1] == 'k' and u > .5: d.sg[int(rng.integers(len(d.sg))), int(rng.integers(dim))] = 0.0
                if u < .15 and noise == 'zz': d.sf[:] = 1e-12                                          # negligible
                s = G.Scen(r, rng, kern, dim, n, ug, wc, data_=d)
                if not s.ok: tr.append([s.case()]); continue
                e = [s.case(), s.noise(), s.mat(), s.mat(norm=True), s.lkd(), s.lkd(adj=False)]
                o, _, t = s.setup()
                if o != 'ok': e.append(dict(ev='Bad', what='setup', text=t))
                else:
                    e.append(s.eval(s.points(3, [0]), grad=bool(j % 2)))
                    if not s.gp.b_use_data_scl: e.append(s.eval(s.points(2), var=True))
                tr.append(e)
    # unknown standard deviations by NaN, and only partly known ones
    for kern in G.KERNS:
        for part in ('f', 'g', 'fg', 'none'):
            c = G.cfg(kern, 2, True, 'base'); d = G.data(rng, c, 3, 'kk')
            s0 = G.Scen(r, rng, kern, 2, 3, True, 'base', data_=d)
            sf, sg = d.sf.copy(), d.sg.copy()
            if 'f' in part: sf[rng.integers(3)] = np.nan
            if 'g' in part: sg[rng.integers(3), rng.integers(2)] = np.nan
            gp = G.mkgp(c, r.tmp)
            o = call(lambda: gp.set_data(d.x, d.f, sf, d.g, sg))
            import copy
            q = copy.copy(d)
            if 'f' in part: q.sf = None
            if 'g' in part: q.sg = None
            if o[0] != 'ok': tr.append([dict(ev='Bad', what='set_data', text=o[2])]); continue
            s0.gp, s0.d = gp, q; s0.h = G.rand_hp(rng, gp, c, q)
            tr.append([s0.case(), s0.noise(), s0.lkd(), s0.mat()])
    for k in range(5 if not r.thorough else 20):        # many points
        ug = k % 2 == 0; kern = G.KERNS[k % 3]; wc = ['base', 'precon', 'rescale_origin', 'dflt_vmax'][k % 4]
        dim = int(rng.integers(1, 4)); n = int(rng.integers(8, 15) if ug else rng.integers(10, 33))
        mask = G.some_mask(rng, n) if ug and k % 4 == 0 else None
        noise = ['kk', 'kz', 'ku', 'uk', 'zk'][int(rng.integers(5))] if ug else 'kz'
        if noise not in G.NOISE: noise = 'kk'
        c = G.cfg(kern, dim, ug, wc)
        d = G.data(rng, c, n, noise, mask, level=float(10 ** rng.uniform(-3, 0)))
        s = G.Scen(r, rng, kern, dim, n, ug, wc, data_=d)
        if not s.ok: tr.append([s.case()]); continue
        e = [s.case(), s.noise(), s.mat(norm=bool(k % 2)), s.lkd()]
        o, _, t = s.setup()
        e.append(dict(ev='Bad', what='setup', text=t) if o != 'ok' else s.eval(s.points(3, [0]), grad=bool(k % 2)))
        tr.append(e)
    r.validate('GPTrace', tr, ['data-accepted', 'noise-.*', 'mat-cov.*', 'mat-outcome', 'lkd-value', 'lkd-beta', 'lkd-varK', 'lkd-outcome', 'eval-mu', 'eval-sig', 'eval-sig2', 'eval-outcome', 'evaluation-error'], 'noise')
    r.notes.append('1 to 3 points (and some with up to 32), 1 to 3 dimensions, standard deviations 1e-3..1')
