"""C08: layout of the vector of hyperparameters, decoding, initial and custom hyperparameters."""
import json, os, re
import numpy as np
import vf
from vf import S, call, quiet
import gpgen as G

F = dict(theta='theta', alpha='kernel', varK='varK', vf='var_fval', vg='var_fgrad')


def info_rec(i):
    return dict(n=int(i.n_hp), has={k: bool(getattr(i, 'has_' + v)) for k, v in F.items()},
                idx={k: [int(j) for j in np.ravel(getattr(i, 'idx_' + v))] for k, v in F.items()}, log=[bool(b) for b in i.bvec_log_optz])


NOINFO = dict(n=0, has={}, idx={}, log=[])


def layout(gp, k, own, has=None):
    if own: o, i, t = call(lambda: gp.hp_info_optz_lkd)
    else: o, i, t = call(lambda: gp.set_hp_optz_info(has['theta'], has['alpha'], has['varK'], has['vf'], has['vg']))
    return dict(ev='Layout', k=k, own=own, has=has or {}, out=o, info=info_rec(i) if o == 'ok' else NOINFO, _txt=t), i


def decode(rng, gp, k, own, has, info):
    n = info.n_hp
    v = np.where(info.bvec_log_optz, rng.uniform(-3, 3, n), rng.uniform(.2, 9, n)) if n else np.zeros(0)
    vec = S(v)
    e = dict(ev='Decode', k=k, own=own, has=has or {}, vec=vec, vecafter=vec, alpha0=S(gp.hp_kernel_default), h='none', hlater='none')
    o, h, t = call(lambda: gp.hp_vec2dataclass(info, v))
    e.update(out=o, _txt=t)
    if o == 'ok':
        rec = lambda: dict(G.hprec(h), theta=S(np.atleast_1d(h.theta)) if h.theta is not None else [])
        e['h'] = rec(); e['vecafter'] = S(v)
        v += 1.5                       # later changes of the caller's vector do not matter
        e['hlater'] = rec()
    return e


def initial(gp, c, d, xs):
    o, h, t = call(gp.get_init_hp_vals)
    i = dict(theta=S(gp.hp_theta_init), alpha=S(gp.hp_kernel_default), varK=S(gp.hp_varK_init), vf=S(gp.hp_var_fval_init), vg=S(gp.hp_var_fgrad_init))
    return dict(ev='Init', c=c, d=d.rec(), xs=xs, i=i, h=G.hprec(h) if o == 'ok' else 'none', out=o, _txt=t)


def custom(rng, gp, c, d, slot):
    o1 = lambda p, f: f() if rng.random() < p else None
    given = dict(beta=np.array([rng.normal()]), theta=10 ** rng.uniform(-6, 3, c['dim']), kernel=o1(.7, lambda: rng.uniform(.1, 9)),
                 varK=o1(.8, lambda: 10 ** rng.uniform(-4, 4)), var_fval=o1(.5, lambda: 10 ** rng.uniform(-4, 2)), var_fgrad=o1(.5, lambda: 10 ** rng.uniform(-4, 2)))
    rec = G.hprec(gp.make_hp_class(**given))
    def f():
        gp.set_custom_hp(**given)
        kept = G.hprec(gp.hp_vals)
        gp.store_new_para_surr(slot, gp.hp_vals)
        # what the object gives for the iteration (None is stored as NaN)
        N = lambda v: 'none' if np.isnan(v) else S(v)
        st = dict(beta=S(gp.hp_beta_all[slot]), theta=S(gp.hp_theta_all[slot]), alpha=N(gp.hp_kernel_all[slot]), varK=N(gp.hp_varK_all[slot]),
                  vf=N(gp.hp_var_fval_all[slot]), vg=N(gp.hp_var_fgrad_all[slot]))
        return kept, st
    o, v, t = call(f)
    e = dict(ev='Custom', out=o, given=rec, h='none', stored='none', _txt=t)
    if o == 'ok': e['h'], e['stored'] = v
    return e


def bad(rng, gp):
    b = G.hprec(gp.hp_vals)
    o, _, t = call(lambda: gp.set_custom_hp(np.zeros(1), np.ones(gp.dim), None, [0., -1., -1e-30, 0][int(rng.integers(4))]))
    return dict(ev='BadCustom', out=o, before=b, h=G.hprec(gp.hp_vals), _txt=t)


def _one(a):
    tmp, seed, ks = a
    rng = np.random.default_rng(seed); tr = []
    for group in ks:        # configurations that differ in the data only are reached on one object
        k0 = group[0]
        wc = ['base', 'precon', 'rescale_origin', 'dflt_vmin'][int(rng.integers(4))]
        c = G.cfg(k0['kern'], k0['dim'], k0['ug'], wc, optalpha=k0['optalpha'], logth=k0['logth'], logkern=k0['logkern'], logvar=k0['logvar'])
        with quiet():
            gp = G.mkgp(c, tmp); gp.init_optz_surr(3)
        ev = []
        for k in group:
            n = int(rng.integers(1, 4))
            d = G.data(rng, c, n, k['nf'] + k['ng'], G.some_mask(rng, n) if k['ug'] and n > 1 and rng.random() < .4 else None)
            out = G.set_data(gp, d)
            if out[0] != 'ok':
                ev.append(dict(ev='Layout', k=k, own=True, has={}, out='exc', info=NOINFO, _txt=out[2])); continue
            e, info = layout(gp, k, True); ev.append(e)
            if info is not None: ev.append(decode(rng, gp, k, True, None, info))
            for _ in range(2):
                p = rng.random(5) < .6
                has = dict(theta=bool(p[0]), alpha=bool(p[1]) and k['kern'] == 'RatQu', varK=bool(p[2]), vf=bool(p[3]) and k['nf'] == 'u', vg=bool(p[4]) and k['ug'] and k['ng'] == 'u')
                if has['varK'] and not d.noisy(): has['varK'] = False
                if not any(has.values()): continue
                e, info = layout(gp, k, False, has); ev.append(e)
                if info is not None: ev.append(decode(rng, gp, k, False, has, info))
            ev.append(initial(gp, c, d, S(gp.DataScl.xvec_scale) if gp.b_use_data_scl else 'none'))
            ev.append(custom(rng, gp, c, d, int(rng.integers(3))))
            if rng.random() < .3: ev.append(bad(rng, gp))
        tr.append(ev)
    return tr


def check(r):
    cfg = os.path.join(vf.SPEC, 'MC_HpLayout.cfg')
    rc, out = r.tlc('MC_HpLayout', cfg)
    cn = r.counts(out)
    if rc or not cn: raise vf.Machinery('MC_HpLayout: ' + out[-2000:])
    r.mc.append(dict(model='MC_HpLayout', states=cn[0], transitions=cn[1]))
    for b in ('shift', 'log'): r.expect_reject('MC_HpLayout_BAD', os.path.join(vf.SPEC, f'BAD_HpLayout_{b}.cfg'))
    K = [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'^"(\{.*\})"$', out, re.M)]
    if len(K) != cn[0]: raise vf.Machinery(f'{len(K)} of {cn[0]} configurations were printed')
    rng = r.rng(); groups = {}
    for k in K: groups.setdefault(tuple(k[x] for x in ('kern', 'dim', 'ug', 'optalpha', 'logth', 'logkern', 'logvar')), []).append(k)
    groups = [[g[int(i)] for i in rng.permutation(len(g))] for g in groups.values()]
    if r.thorough: groups = [[g[int(i)] for i in rng.permutation(len(g))] for _ in range(6) for g in groups]
    groups = [groups[int(i)] for i in rng.permutation(len(groups))]
    jobs = [(r.tmp, int(rng.integers(1 << 62)), groups[j:j + 6]) for j in range(0, len(groups), 6)]
    tr = [t for x in vf.pmap(_one, jobs) for t in x]
    r.extra['configurations'] = len(K)
    r.validate('LayoutTrace', tr, None, 'layouts of all configurations')
    r.notes.append('dimensions 1 to 3; every combination of kernel, use of gradients, what is optimized, logarithms and kind of noise')
