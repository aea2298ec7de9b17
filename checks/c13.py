"""C13: gradients of the likelihood and of the condition number."""
import numpy as np
from vf import S, call, quiet
import gpgen as G
from c12 import scens


def check(r):
    rng = r.rng(); tr = []
    for i, s in enumerate(scens(r, rng, 5 if not r.thorough else 60, wcs=('base', 'precon', 'rescale_origin', 'dflt_vmin'), nmax=3)):
        if not s.ok: tr.append([s.case()]); continue
        # what is optimized and how
        if rng.random() < .4:
            lt, lk, lv = rng.random(3) < .5
            s.c = dict(s.c, logth=bool(lt), logkern=bool(lk), logvar=bool(lv), optalpha=bool(rng.random() < .6))
            s.gp = G.mkgp(s.c, r.tmp); G.set_data(s.gp, s.d)
        if rng.random() < .25:
            s.c = dict(s.c, pnlt=True, p1='0.7', p2='0.01', plb='0.1')
            s.gp.lkd_varK_pnlt_use = True; s.gp.lkd_varK_pnlt_c1 = .7; s.gp.lkd_varK_pnlt_c2 = .01; s.gp.lkd_varK_pnlt_lb_var = .1
        if not s.c['etaconst']:
            s.c = dict(s.c, etaconst=True); s.gp = G.mkgp(s.c, r.tmp); G.set_data(s.gp, s.d)
        e = [s.case(), s.grad(adj=True), s.grad(adj=False)]
        if i % 5 == 0 and not s.d.noisy():
            s.gp.cond_norm = 'fro'; s.c = dict(s.c, norm='fro')
            e += [s.case(), s.grad(adj=True)]
        if i % 3 == 1 and s.d.f.size > 1 and s.c['wc'] != 'precon' and s.c['norm'] == '2':     # factorization not attempted
            s.c = dict(s.c, condabs='1.5'); s.gp.cond_max_abs = 1.5
            e += [s.case(), s.grad(adj=True)]
        if (i + i // 4) % 2 == 0 and s.d.f.size > 1 and s.c['norm'] == '2':     # factorization fails
            e += [s.grad(fault=True, adj=bool(i % 3))]
        tr.append(e)
    # nearly singular kernels: the smallest eigenvalue is that of the nugget
    for j in range(6 if not r.thorough else 40):
        dim = 1 + int(rng.integers(2))
        s = G.Scen(r, rng, G.KERNS[j % 3], dim, 2 + int(rng.integers(2)), bool(j % 2), ['base', 'rescale_origin'][int(rng.integers(2)) if j % 2 else 0], 'zz',
                   lo=.002, hi=.05, target=['1e8', '1e10', '1e12'][j % 3 if j < 3 else int(rng.integers(3))])
        tr.append([s.case(), s.grad(adj=True), s.grad(adj=False)] if s.ok else [s.case()])
    # preconditioning with a nugget that matters, and unknown noise
    for j in range(6 if not r.thorough else 60):
        ug = rng.random() < .75; dim = 1 + int(rng.integers(3))
        s = G.Scen(r, rng, G.KERNS[j % 3], dim, 2 + int(rng.integers(2 if dim < 3 else 1)), ug, 'precon', ['uu', 'uz', 'zu', 'ku', 'uk'][int(rng.integers(5))] if ug else 'uz', target=['1e2', '1e3', '1e4'][int(rng.integers(3))])
        tr.append([s.case(), s.grad(adj=True), s.grad(adj=False)] if s.ok else [s.case()])
    # one point
    for j in range(3):
        s = G.Scen(r, rng, G.KERNS[j % 3], 1 + j % 2, 1, bool(j % 2), 'base', 'zz')
        if not s.ok: tr.append([s.case()]); continue
        e = [s.case(), s.grad(adj=True)]
        s.gp.cond_norm = 'fro'; s.c = dict(s.c, norm='fro')
        tr.append(e + [s.case(), s.grad(adj=bool(j % 2))])
    r.validate('GPTrace', tr, ['data-accepted', 'grad-.*', 'evaluation-error'], 'gradients of the likelihood')
    r.notes.append('1 to 3 points, 1 to 3 dimensions, constant nugget (its dependence on the hyperparameters with a varying nugget is neglected by design)')
