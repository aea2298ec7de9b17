"""C12: likelihood and closed-form hyperparameters."""
import itertools
import numpy as np
from vf import S, call, quiet
import gpgen as G


def scens(r, rng, reps, wcs=('base', 'precon', 'rescale_origin', 'rescale_eta_vary', 'dflt_vmin', 'dflt_vmax', None), nmax=4, ugp=.75, big=6, **kw):
    """Scenarios that cover all pairs of kernel, method and noise."""
    for rep in range(reps):
        off = int(rng.integers(9)); j = 0
        for kern in G.KERNS:
            for wc in wcs:
                dim = int(rng.integers(1, 4)) if rep else 1 + j % 3
                n = int(rng.integers(1, nmax + 1)) if dim < 3 else int(rng.integers(1, max(2, nmax)))
                if rng.random() < .8: n = max(n, 2)
                ug = rng.random() < ugp or wc in ('rescale_origin', 'rescale_eta_vary')
                u = rng.random() if rep else 1
                if u < .1: dim, n = int(rng.integers(4, 7)), int(rng.integers(1, 3))                          # many dimensions
                elif u < .2 and ugp < 1 and wc not in ('rescale_origin', 'rescale_eta_vary'): n, ug = int(rng.integers(nmax + 1, 2 * nmax + 2)), False      # many values
                noise = G.NOISE[(off + 4 * j) % 9] if rng.random() < .6 else 'zz'
                mask = G.some_mask(rng, n) if ug and n > 1 and rng.random() < .3 else None
                if wc == 'rescale_eta_vary': kw2 = dict(kw, etaconst=False)
                elif rng.random() < .15: kw2 = dict(kw, etaconst=False)
                else: kw2 = dict(kw)
                if rng.random() < .2: kw2['etaset'] = ['dflt_eta', 'Kbase_eta_w_dim'][int(rng.integers(2))]
                if rng.random() < .3: kw2['target'] = ['1e4', '1e7', '1e12'][int(rng.integers(3))]
                j += 1
                if rng.random() < .06:       # whole numbers
                    c = G.cfg(kern, dim, ug, wc or 'base'); kw2 = dict(kw2, data_=G.data(rng, c, n, noise if ug else noise[0] + 'z', mask, 1.0).whole(rng if rng.random() < .6 else None))
                yield G.Scen(r, rng, kern, dim, n, ug, wc or 'base', noise, mask, **kw2)
    # much more data
    for j in range(big * (4 if r.thorough else 1)):
        wc = wcs[int(rng.integers(len(wcs)))]; ug = rng.random() < min(ugp, .6) or wc in ('rescale_origin', 'rescale_eta_vary') or ugp == 1
        dim = int(rng.integers(1, 5)); n = int(rng.integers(24, 50)) // (1 + dim) if ug else int(rng.integers(9, 41))
        noise = G.NOISE[int(rng.integers(9))] if rng.random() < .6 else 'zz'
        kw2 = dict(kw, etaconst=wc != 'rescale_eta_vary'); mask = G.some_mask(rng, n) if ug and rng.random() < .3 else None
        yield G.Scen(r, rng, G.KERNS[j % 3], dim, n, ug, wc or 'base', noise if ug else noise[0] + 'z', mask, **kw2)


def check(r):
    rng = r.rng(); tr = []
    for i, s in enumerate(scens(r, rng, 8 if not r.thorough else 100)):
        if not s.ok: tr.append([s.case()]); continue
        e = [s.case()]
        h = s.h
        e += [s.lkd(adj=True), s.lkd(adj=False, cond=False), s.lkd(adj=bool(i % 2), grad=True)]
        if i % 3 == 0:       # penalty
            s.gp.lkd_varK_pnlt_use = True; s.c = dict(s.c, pnlt=True, p1='0.7', p2=str(rng.choice(['0.01', '0.5', '2.0'])), plb=str(rng.choice(['0.1', '50.0'])))
            s.gp.lkd_varK_pnlt_c1 = float(s.c['p1']); s.gp.lkd_varK_pnlt_c2 = float(s.c['p2']); s.gp.lkd_varK_pnlt_lb_var = float(s.c['plb'])
            e += [s.case(), s.lkd(), s.lkd(grad=True)]
        if i % 4 == 0:       # condition number in the Frobenius norm
            s.gp.cond_norm = 'fro'; s.c = dict(s.c, norm='fro')
            if not s.d.noisy(): e += [s.case(), s.lkd()]
        tr.append(e)
    r.validate('GPTrace', tr, ['data-accepted', 'lkd-.*', 'case-xs', 'evaluation-error'], 'likelihood')
    r.notes.append('1 to 4 points, 1 to 3 dimensions; tolerances proportional to the condition number')
