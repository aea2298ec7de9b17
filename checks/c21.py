"""C21: result histories report the cumulative best, saved runs are loaded as recorded."""
import json, os, re, tempfile, warnings
os.environ.setdefault('MPLBACKEND', 'Agg')
import numpy as np
import vf
from vf import S, call
KEYS = [['merit_all', 'opt_all', 'fsb_all'], ['merit_wo_noise_all', 'opt_wo_noise_all', 'fsb_wo_noise_all']]


def P():
    from gpgradpy.results.PltOptzResults import PltOptzResults
    return PltOptzResults


def best(h, m):
    h0 = np.array(h, dtype=float)
    out, v, t = call(lambda: P().best_at_all_iter(h0.copy(), m))
    return dict(ev='Best', h=S(h0), m=m, out=out, got=S(v) if out == 'ok' else [], _txt=t, _w=len(h))


def load(tmp, rng, sh, cap, over={}):
    d = tempfile.mkdtemp(prefix='runs_', dir=tmp); names = []; f = []
    for i, (a, b) in enumerate(sh):
        z = {}
        for k in KEYS[0] + KEYS[1]:
            z[k] = rng.normal(0, 10 ** rng.uniform(-3, 3), (a, b))
            z[k][rng.random((a, b)) < .15] = np.nan
        if rng.random() < .4: np.savez(os.path.join(d, f'r{i}'), **z)
        else: np.savez(os.path.join(d, f'r{i}'), other=np.arange(3), **{k: z[k] for k in rng.permutation(KEYS[0] + KEYS[1])})
        names.append(f'r{i}.npz'); f.append(z)
    p = rng.permutation(len(sh)); names = [names[i] for i in p]; f = [f[i] for i in p]
    wo = bool(rng.random() < .5)
    k = dict(over)
    if not wo or rng.random() < .5: k['load_noise_free_data'] = wo
    else: wo = True
    k['n_iter_max'] = cap or None
    out, v, t = call(lambda: P().load_npz_data(d, names, **k))
    return dict(ev='Load', f=[[S(z[q]) for z in f] for q in KEYS[wo]], cap=cap, out=out, got=[S(a) for a in v] if out == 'ok' else [], _txt=t, _w=sum(a * b for a, b in sh))


def plot(tmp, rng):
    import matplotlib.pyplot as plt
    nc, nx, ni = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 8))
    d = rng.normal(0, 1, (nc, nx, ni)); pos = rng.random() < .5
    if pos: d = np.abs(d)
    u = rng.random()
    if u < .3:
        for c in range(nc):
            for j in range(nx): d[c, j, int(rng.integers(1, ni + 1)):] = np.nan
    elif u < .5: d[rng.random(d.shape) < .2] = np.nan
    m = 'min' if rng.random() < .6 else 'max'; area = bool(rng.random() < .7)
    two = nc == 1 and rng.random() < .5
    lab = None if rng.random() < .3 else [f'case {c}' for c in range(nc)]
    name = os.path.join(tempfile.mkdtemp(prefix='fig_', dir=tmp), 'f.png') if rng.random() < .1 else None
    d0 = d.copy(); e = dict(ev='Plot', d=S(d0), m=m, area=False, lines=[], lb=[], ub=[])
    def f():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            plt.close('all')
            try:
                P().plt_conv_nx0(bool(pos), 'y', d[0] if two else d, lab, name, color_vec=['r', 'g', 'b', 'k'], b_plt_area=area, str_data_minmax=m)
                ax = plt.gcf().axes[0]
                L = [l.get_ydata() for l in ax.lines]
                # lines in the order of the cases, told apart by their colours
                assert len(L) == nc * nx and (name is None or os.path.getsize(name) > 0)
                e['lines'] = [[S(l.get_ydata()) for l in ax.lines if l.get_color() == 'rgbk'[c]] for c in range(nc)]
                if not all(np.array_equal(l.get_xdata(), np.arange(ni)) for l in ax.lines): e['lines'] = []
                if area:
                    import matplotlib.colors as mc
                    e['area'] = True
                    for c in range(nc):
                        pc = [q for q in ax.collections if np.allclose(q.get_facecolor()[0][:3], mc.to_rgb('rgbk'[c]))]
                        V = np.vstack([w.vertices for q in pc for w in q.get_paths()]) if any(len(q.get_paths()) for q in pc) else np.zeros((0, 2))
                        at = lambda k, g: float(g(V[V[:, 0] == k, 1])) if np.any(V[:, 0] == k) else np.nan
                        e['lb'].append(S(np.array([at(k, np.min) for k in range(ni)]))); e['ub'].append(S(np.array([at(k, np.max) for k in range(ni)])))
            finally: plt.close('all')
    out, _, t = call(f)
    e.update(out=out, _txt=t)
    return e


def _one(a):
    kind, tmp, seed, x = a
    rng = np.random.default_rng(seed); tr = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if kind == 'best':
            for h in x:
                # the values of the model in increasing order
                v = np.sort(rng.choice([rng.normal(0, 1, 3), rng.normal(0, 10. ** rng.uniform(-12, 12), 3), np.array([-1., 0., 1.]), np.array([1e-300, 1., 1e300])]))
                for m in ('min', 'max'): tr.append(best([np.nan if k == 0 else v[k - 1] for k in h], m))
        elif kind == 'long':
            for _ in range(x):
                n = int(rng.integers(1, 60)); h = rng.normal(0, 1, n) * 10. ** rng.uniform(-3, 3, n)
                if rng.random() < .5: h = np.round(h)
                if rng.random() < .6: h[rng.random(n) < rng.random()] = np.nan
                if rng.random() < .4: h[int(rng.integers(n + 1)):] = np.nan
                if rng.random() < .3: h[:int(rng.integers(n + 1))] = np.nan
                tr.append(best(h, 'min' if rng.random() < .5 else 'max'))
        elif kind == 'load':
            for sc in x: tr.append(load(tmp, rng, sc['sh'], sc['cap'], sc.get('over', {})))
        else:
            for _ in range(x): tr.append(plot(tmp, rng))
    return tr


def check(r):
    spec = lambda f: os.path.join(vf.SPEC, f + '.cfg')
    r.check_model('MC_RunBest', spec('MC_RunBest')); r.check_model('MC_RunLoad', spec('MC_RunLoad'))
    for b in ('poison', 'latest', 'no_end'): r.expect_reject('MC_RunBest', spec('BAD_RunBest_' + b))
    for b in ('fixed', 'last_rows'): r.expect_reject('MC_RunLoad', spec('BAD_RunLoad_' + b))
    def lst(mod, cfg):
        rc, out = r.tlc(mod, spec(cfg)); cn = r.counts(out)
        if rc or not cn: raise vf.Machinery(mod + out[-1500:])
        r.mc.append(dict(model=cfg, states=cn[0], transitions=cn[1]))
        return [json.loads(m.replace('\\"', '"')) for m in re.findall(r'^"([\[{].*[\]}])"$', out, re.M)]
    H = [h for h in lst('MC_RunBest', 'MC_RunBestList') if h]; F = lst('MC_RunLoad', 'MC_RunLoadList')
    if len(H) < 1000 or len(F) < 50: raise vf.Machinery('histories of the model are missing')
    rng = r.rng()
    for _ in range(60 if r.thorough else 12):       # longer and more runs
        nf = int(rng.integers(1, 4)); sh = [(int(rng.integers(1, 6)), int(rng.integers(1, 40))) for _ in range(nf)]
        F.append(dict(sh=sh, cap=int(rng.integers(0, 45)) if rng.random() < .6 else 0, over=dict(n_x0_init=int(rng.integers(5, 9))) if rng.random() < .3 else {}))
    F.append(dict(sh=[(2, 1003), (1, 3)], cap=0)); F.append(dict(sh=[(20, 4), (1, 3)], cap=0)); F.append(dict(sh=[(2, 1003)], cap=1002))
    if r.thorough: F.append(dict(sh=[(2, 2500), (1, 3)], cap=0)); F.append(dict(sh=[(23, 4), (1, 3)], cap=0, over=dict(n_x0_init=23)))
    sd = lambda: int(rng.integers(1 << 62))
    reps = 4 if r.thorough else 1
    jobs = [('best', r.tmp, sd(), H[j::8]) for j in range(8) for _ in range(reps)] + [('long', r.tmp, sd(), 60) for _ in range(4 * reps)]
    jobs += [('load', r.tmp, sd(), F[j::8]) for j in range(8) for _ in range(reps)] + [('plot', r.tmp, sd(), 12) for _ in range(6 * reps)]
    r.extra['histories_of_the_model'] = len(H); r.extra['loads'] = len(F)
    tr = vf.pmap(_one, jobs)
    r.validate('RunTrace', tr, None, 'result processing')
