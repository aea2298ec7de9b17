"""C22: nuggets and required distances."""
import numpy as np
from vf import S, call, quiet
import gpgen as G


def check(r):
    r.check_model('MC_Nugget', workers=2)
    rng = r.rng(); tr = []
    targets = ['10000000000.0', '1e3', '1e6', '1e14']
    for kern in G.KERNS:
        for dim in range(1, 7 if not r.thorough else 21):
            for wc in ('base', 'precon', 'rescale_origin', 'rescale_eta_vary', 'dflt_vmin', 'dflt_vmax', 'free'):
                for es in ('Kbase_eta', 'Kbase_eta_w_dim', 'dflt_eta'):
                    c = G.cfg(kern, dim, wc != 'free', wc if wc != 'free' else 'base', etaset=es, etadflt='3e-07', target=targets[int(rng.integers(4))])
                    gp = G.mkgp(c, r.tmp)
                    d = G.data(rng, c, 2)
                    e = [dict(ev='Case', c=c, d=d.rec(), xs='none', xs0=False)]
                    ns = [1, 2, 3, 5] + [int(x) for x in rng.integers(4, 200, 2)]
                    for n in ns:
                        o, v, t = call(lambda: gp.calc_nugget(n))
                        e.append(dict(ev='Nugget', n=n, out=o, base=S(v[0]) if o == 'ok' else 'nan', grad=S(v[1]) if o == 'ok' else 'nan', _txt=t))
                        if es == 'Kbase_eta':
                            for vin in (None, float(rng.uniform(np.sqrt(2), max(1.5, 2 * np.sqrt(dim))))):
                                if vin is not None and vin > 2 * np.sqrt(dim): continue
                                o, v, t = call(lambda: (gp.calc_mtd_rescale_origin_vreq(n, dim), gp.calc_nugget_Kfull_vreq(n, vin)))
                                e.append(dict(ev='Vreq', n=n, vin=S(vin), out=o, v=S(v[0]) if o == 'ok' else 'nan', eta=S(v[1]) if o == 'ok' else 'nan', _txt=t))
                    tr.append(e)
    # the nugget that is used once data are set
    for kern in G.KERNS:
        for wc in ('base', 'precon', 'rescale_origin', 'dflt_vmin', 'dflt_vmax', 'free'):
            for n in (1, 2, 4):
                s = G.Scen(r, rng, kern, 2, n, wc != 'free', wc if wc != 'free' else 'base', target=targets[int(rng.integers(4))])
                tr.append([s.case(), s.mat(), s.mat(norm=True)] if s.ok else [s.case()])
    # surrogates on which nothing is set
    for kern in G.KERNS:
        for wc in ('base', None, 'precon', 'rescale_origin', 'rescale_eta_vary', 'dflt_vmin', 'dflt_vmax', 'free'):
            dim = int(rng.integers(1, 4)); n = int(rng.integers(2, 5))
            s = G.Scen(r, rng, kern, dim, n, wc != 'free', wc if wc != 'free' else 'base', plain=True)
            tr.append([s.case(), s.mat(), s.mat(norm=True)] if s.ok else [s.case()])
    # settings that change from one set of data to the next
    for j in range(9 if not r.thorough else 60):
        def rec(s, i):
            e = [s.mat(), s.mat(norm=True)]
            o, v, t = call(lambda: s.gp.calc_nugget(s.d.f.size))
            return e + [dict(ev='Nugget', n=int(s.d.f.size), out=o, base=S(v[0]) if o == 'ok' else 'nan', grad=S(v[1]) if o == 'ok' else 'nan', _txt=t)]
        tr.append(G.reused(r, rng, G.KERNS[j % 3], 10, rec))
    r.validate('GPTrace', tr, ['nugget-.*', 'vreq.*', 'mat-eta', 'mat-outcome', 'case-xs', 'data-accepted', 'evaluation-error'], 'nuggets')
    r.notes.append('up to 200 points and 6 dimensions (thorough: 20)')
