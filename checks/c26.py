"""C26: figures show the data, the surrogate and the likelihood that they are about."""
import os, shutil
import numpy as np
import vf
from vf import S, call
import gpgen as G, figs as F

CLAUSES = [r'fig-.*', r'script-.*', r'debug-.*', 'evaluation-error']


def direct(a):
    """Drawings of SurrPlt for random data and options."""
    seed, j = a
    rng = np.random.default_rng(seed)
    from gpgradpy.plt import SurrPlt
    import matplotlib.pyplot as plt
    nx = int(rng.integers(3, 30)); sc = 10.0 ** rng.integers(-2, 3)
    x = np.sort(rng.uniform(-3, 5, nx))[:, None]
    ev = dict(ev='Fig', out='exc', fig='none', x=S(x[:, 0]))
    with F.Canvas() as cv:
        fig, ax = plt.subplots()
        if j % 2 == 0:
            ne = int(rng.integers(1, 6))
            exa, xe, fe, mu = rng.normal(0, sc, nx), rng.uniform(-3, 5, (ne, 1)), rng.normal(0, sc, ne), rng.normal(0, sc, nx)
            sig = rng.uniform(0, sc, nx); sig[rng.random(nx) < .1] = 0
            ns = float(rng.choice([1, 2, 3, 1.5, .25]))
            on = {k: bool(rng.random() < .75) for k in ('sig', 'mu', 'exact', 'eval', 'fmin')}
            o, _, t = call(lambda: SurrPlt().plot_surr(ax, x, exa, xe, fe, mu, sig, ns, legend_loc=str(rng.choice(['best', 'out', 'upper left'])), b_plt_fmin=on['fmin'], b_plt_exact=on['exact'],
                                                       b_plt_eval=on['eval'], b_plt_surr_mu=on['mu'], b_plt_surr_sig=on['sig']))
            ev.update(k='surr', exa=S(exa), xe=S(xe[:, 0]), fe=S(fe), mu=S(mu), sig=S(sig), ns=S(ns), on=on, out=o, _txt=t)
        else:
            na = int(rng.integers(1, 4)); v = rng.normal(rng.normal(0, sc), sc, (nx, na))
            if rng.random() < .2: v[:, 0] = v[0, 0]       # a constant
            labs = [f'acq {i} of {na}' for i in range(na)]
            scl, star = bool(rng.random() < .5), bool(rng.random() < .7)
            kw = {k: b for k, b, dflt in [('b_scl_data', scl, False), ('b_plt_min_acq', star, True)] if b != dflt or rng.random() < .5}   # the defaults may be left out
            o, _, t = call(lambda: SurrPlt().plot_acq(ax, x, v.copy(), labs, legend_loc=str(rng.choice(['best', 'out'])), **kw))
            ev.update(k='acq', vals=S(v.T), labs=labs, scl=scl, star=star, out=o, _txt=t)
        ev['fig'] = F.drawing(ax)
    return [[ev]]


def debug(a):
    """The figure of the likelihood that is drawn on request when it is maximized (two lengthscales)."""
    seed, j, tmp = a
    rng = np.random.default_rng(seed)
    c = G.cfg(['SqExp', 'Ma5f2'][j % 2], 2, bool(j % 3), ['precon', 'base', 'dflt_vmin'][j % 3])
    gp = G.mkgp(c, tmp); d = G.data(rng, c, int(rng.integers(3, 6)))
    if not hasattr(gp, '_gp_optz_plt_lkd_bool'): return []
    lo = float(10 ** rng.uniform(-2, -.5))
    gp.hp_theta_range = [lo, float(lo * 10 ** rng.uniform(1, 2))]; gp.hp_theta_init = lo * 2; gp.optz_iter_max = 15; gp.hp_const_n_eval = 1; gp.lkd_hp_best_n_eval = 4; gp.optz_n_x0 = 2
    gp._gp_optz_plt_lkd_bool = True; gp.cond_max_target = gp.cond_max = 1e8; c.update(target='1e8')
    with F.Canvas() as cv:
        def f():
            gp.set_data(**d.args()); gp.init_optz_surr(2); gp.set_hpara('optz', 0)
        o, _, t = call(f)
        g = [x for x in cv.read() if x['maps']]
    ev = dict(ev='Fig', k='debug', out=o if g else 'none', _txt=t, fig='none', _w=30)
    if g:
        n, m = len(g[0]['maps'][0]['Z']), len(g[0]['maps'][0]['Z'][0])
        ev.update(fig=g[0], h=G.hprec(gp.hp_vals), at=[[int(rng.integers(n)) + 1, int(rng.integers(m)) + 1] for _ in range(5)], labs='gamma_1' in g[0]['xlab'] and 'gamma_2' in g[0]['ylab'])
    return [[G.case(gp, c, d, xs0=False), ev]]


def case(c, q):
    d = G.Data.__new__(G.Data)
    d.x, d.f, d.sf, d.g, d.sg = q['x'], q['f'], q.get('sf'), q.get('g'), q.get('sg')
    d.mask = None; d.ug = c['ug']
    return dict(ev='Case', c=c, d=d.rec(), xs='none', xs0=False)


def lkds(L):
    """Calls by increasing lengthscale, each hyperparameter once."""
    seen = {}
    for e in L: seen.setdefault(tuple(e['h'].theta), e)
    return [dict(G.hprec(e['h']), th=S(e['h'].theta), lkd='none' if not np.isfinite(e['lkd']) else S(e['lkd']), cond=S(e['cond']), lbeta=S(e['beta']), lvarK=S(e['varK'])) for _, e in sorted(seen.items())]


def evals(L):
    return [dict(th=S(e['h'].theta), beta=S(number(e['h'].beta)), varK=S(number(e['h'].varK)), x=S(e['x'][:, 0]), mu=S(e['mu']), sig=S(e['sig'])) for e in L]


number = F.number


def script(a):
    """Traces of one run of a script."""
    kind, consts, sections = a
    where, name = (F.RES, 'optz_paper_precon.py') if kind == 'paper' else (F.PLT, f'plt_{kind}.py')
    setup = None
    if kind == 'paper': setup = lambda d: shutil.copytree(os.path.join(F.RES, 'data_paper_precon'), os.path.join(d, 'data_paper_precon'))
    out, txt, figs, saved, w = F.run(where, name, consts, sections, setup)
    if out == 'other': return [None]
    asks = kind == 'acq' or bool(consts.get('save_fig') or consts.get('save_figs'))
    wants = {'paper': ['Rosen_a10_d5', 'Rosen_a10_d10'], 'acq': ['']}.get(kind, [''] if consts.get('save_fig') or consts.get('save_figs') else [])
    head = dict(ev='Fig', k='run', out=out, saved=[dict(name=p, n=n, fig=i + 1) for p, n, i in saved], drawn=w.drawn, all=asks, wants=[any(x in p for p, _, _ in saved) for x in wants], _txt=txt, _key=f'{kind}')
    trs = [[head]]
    if out != 'ok': return trs
    fig = dict(figs=figs)
    for i, gp in enumerate(w.ids):
        q = w.of('data', i)
        if not q: continue
        q, L, E = q[-1], w.of('lkd', i), w.of('eval', i)
        c = F.config(gp)
        tr = [case(c, q), dict(ev='Fig', k='data', fun='waves' if kind in ('surr_1d', 'acq') else 'rosen', noisy=bool(np.max(q['sf']) > 0), _w=3)]
        base = dict(ev='Fig', limit=S(float(gp.cond_max)), limit0=S(float(gp.cond_max_target)))
        if kind in ('surr_1d', 'acq'):
            ev = dict(base, evals=evals(E), calls=lkds(L), xe=S(q['x'][:, 0]), fe=S(q['f']), ns='2', **fig)
            tr.append(dict(ev, k='surrs', _w=20))
            if kind == 'surr_1d': tr.append(dict(ev, k='lkd1', _w=20))
            else: tr.append(dict(ev, k='acqs', _w=10))
        elif kind == 'cond':
            C = lkds(L)
            for axes in {'swap' if 'gamma_2' in g['xlab'] else 'plain' for g in figs if g['maps']}:
                t = np.array([e['th'] for e in C], float)
                rk = [{v: n for n, v in enumerate(sorted(set(t[:, k])))} for k in (0, 1)]
                kx, ky = (1, 0) if axes == 'swap' else (0, 1)
                tr.append(dict(base, k='map', calls=C, pairs=[[rk[ky][v[ky]] + 1, rk[kx][v[kx]] + 1] for v in t], swap=axes == 'swap', eta='none' if L[0]['eta'] is None else S(L[0]['eta']),
                               figs=[g for g in figs if g['maps']], _w=40))
        elif kind == 'nugget_1d':
            C = lkds(L); n = len(C)
            ks = sorted({0, n - 1, *(int(v) for v in np.linspace(0, n - 1, 6))})
            tr.append(dict(base, k='eta', calls=C, ks=[k + 1 for k in ks], eta='none' if L[0]['eta'] is None else S(L[0]['eta']), figs=figs, _w=100))
        trs.append(tr)
    if kind == 'kern_corr':
        kerns = [k for k, n in (('SqExp', 'plt_sq_exp'), ('Ma5f2', 'plt_Ma5f2'), ('RatQu', 'plt_rat_qd')) if consts[n]]
        trs.append([dict(ev='Fig', k='corr', kerns=kerns, al=S(consts['alpha']), alname=str(consts['alpha']), together=consts['plot_together_fwf'], map=consts['plt_sq_exp'], figs=figs, _w=60)])
    return trs


def jobs(rng, thorough):
    J = []
    for rep in range(6 if thorough else 1):
        o = rng.permutation(3)
        for g in (0, 1):
            J.append(('surr_1d', dict(use_grad=bool(g), kernel_type=G.KERNS[o[g]], n_eval=int(rng.integers(3, 6)), n_exa=int(rng.integers(40, 90)), wellcond_mtd=[None, 'precon'][int(rng.integers(2))] if g else None,
                                      save_fig=False, plt_gamma_val=bool(rng.random() < .5)), None))
            J.append(('acq', dict(use_grad=bool(g), kernel_type=G.KERNS[o[1 + g]], n_exa=int(rng.integers(40, 90)), wellcond_mtd=[None, 'precon'][int(rng.integers(2))] if g else None), None))
        for s in range(5):
            J.append(('cond', dict(n_eval=int(rng.integers(4, 7)), n_gamma=int(rng.integers(4, 7)), save_fig=bool(s % 2), cond_max=float(10 ** rng.uniform(4, 10)), **(dict(wellcond_mtd_vec=[None, 'precon']) if s == 1 else {})), [k == s for k in range(5)]))
        J.append(('nugget_1d', dict(n_eval=int(rng.integers(3, 6)), n_gamma=int(rng.integers(20, 40)), save_fig=True, cond_max=float(10 ** rng.uniform(5, 10)), kernel_type=G.KERNS[o[2]]), None))
        J.append(('nugget_1d', dict(n_eval=4, n_gamma=25, save_fig=False), None))
        for al, b in ((float(rng.uniform(.6, 4)), True), (2, False)):
            J.append(('kern_corr', dict(alpha=al, plt_sq_exp=b, plt_Ma5f2=True, plt_rat_qd=True, plot_together_fwf=b, nr=int(rng.integers(12, 25)), save_figs=b), None))
    # as they are
    J.append(('surr_1d', {}, None)); J.append(('acq', {}, None))
    J.append(('kern_corr', dict(alpha=2, plt_sq_exp=True, plt_Ma5f2=False, plt_rat_qd=False, plot_together_fwf=False), None))
    J.append(('paper', {}, None))
    return J


def check(r):
    rng = r.rng('scripts')
    seeds = [(int(r.rng(f'd{j}').integers(2 ** 60)), j) for j in range(400 if r.thorough else 60)]
    trs = [t for x in vf.pmap(direct, seeds) for t in x]
    r.validate('GPTrace', trs, CLAUSES, 'drawings')
    trs = [t for x in vf.pmap(debug, [(int(r.rng(f'b{j}').integers(2 ** 60)), j, r.tmp) for j in range(24 if r.thorough else 6)]) for t in x]
    r.validate('GPTrace', trs, CLAUSES, 'optimization')
    J = jobs(rng, r.thorough)
    trs = [t for x in vf.pmap(script, J) for t in x]
    r.extra['scripts_not_applicable'] = sum(t is None for t in trs); trs = [t for t in trs if t is not None]
    r.extra['scripts'] = sorted({j[0] for j in J}); r.extra['script_runs'] = len(J)
    r.validate('GPTrace', trs, CLAUSES, 'scripts')
    r.notes.append('Contents of matplotlib artists are read, not pixels; saving and showing are replaced by stand-ins; constants at the top of the scripts are varied.')
