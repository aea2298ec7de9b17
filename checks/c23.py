"""C23: the tables report the stored history."""
import contextlib, io, os, tempfile
import numpy as np
import vf
from vf import S, call
import gpgen as G, life as L

OPTS = ['dim', 'use_grad', 'wellcond_mtd', 'kernel_type', 'surr_name', 'b_has_noisy_data', 'b_optz_var_fval', 'b_optz_var_fgrad', 'optz_mtd', 'optz_n_x0', 'optz_iter_max', 'optz_tol_obj', 'optz_tol_x',
        'optz_log_hp_theta', 'optz_log_hp_var', 'optz_log_hp_kernel', 'lkd_optz_start_mtd', 'lkd_hp_best_n_eval', 'lkd_varK_pnlt_use', 'lkd_varK_pnlt_lb_var', 'lkd_varK_pnlt_c1', 'lkd_varK_pnlt_c2',
        'hp_const_n_eval', 'hp_lhs_bound_factor', 'hp_box_bound_factor', 'hp_median_n_idx', 'hp_theta_init', 'hp_varK_init', 'hp_kernel_init', 'hp_var_fval_init', 'hp_var_fgrad_init',
        'cond_eta_set_mtd', 'cond_eta_is_const', 'cond_eta_dflt', 'cond_norm', 'cond_dist_min_dflt', 'cond_dist_max_dflt', 'cond_vreq_max_iter', 'cond_vreq_iter_tol']
NUMS = ['cond_max_target', 'cond_max', 'cond_max_abs']
RANGES = ['hp_theta_range', 'hp_varK_range', 'hp_kernel_range', 'hp_var_fval_range', 'hp_var_fgrad_range']


def table(kind, txt):
    """Header and columns of a table."""
    rows = [[x.strip() for x in ln.strip()[1:-1].split('|')] for ln in txt.splitlines() if ln.strip().startswith('|') and set(ln.strip()) - set('|-+ ')]
    head, body = rows[0], rows[1:]
    return dict(kind=kind, head=head, cols=[[S(float(r[k])) for r in body] for k in range(len(head))])


def options(gp, txt):
    """Options that are shown, as (name, shown, actual)."""
    sh = {}
    for ln in txt.splitlines():
        if ' = ' in ln: a, b = ln.split(' = ', 1); sh[a.strip()] = b.strip()
    num = lambda x: '%.1e' % x
    o = [[k, sh[k], str(getattr(gp, k))] for k in OPTS if k in sh]
    o += [[k, num(float(sh[k])), num(getattr(gp, k))] for k in NUMS if k in sh]
    o += [[k, ' - '.join(num(float(x)) for x in sh[k].split(' - ')), ' - '.join(num(x) for x in getattr(gp, k))] for k in RANGES if k in sh]
    return o


class Info:
    def __init__(self, tmp, rng, j, slots=3):
        self.rng, self.slots = rng, slots
        self.dir = tempfile.mkdtemp(prefix='info_', dir=tmp)
        k, wc, ug = L.CONFIGS[j % len(L.CONFIGS)]
        self.c = c = G.cfg(k, int(rng.integers(1, 7)), ug, wc, target='1e5', etaconst=wc != 'rescale_eta_vary')
        noises = ['zz', 'uz', 'zu', 'uu', 'kk']
        mk = lambda: G.data(rng, c, int(rng.integers(2, 4)), noises[int(rng.integers(5))] if ug else ['zz', 'uz', 'kz'][int(rng.integers(3))])
        self.pool = [mk(), mk()]
        self.gp = gp = self.new()
        self.rows = {}; self.texts = []; self.d = 0
        o, _, t = call(lambda: self.data(gp))
        self.tr = [dict(ev='Case', c=dict(c, condmax=S(float(gp.cond_max))), d=self.pool[0].rec(), n=slots, out=o, _txt=t)]

    def new(self):
        gp = G.mkgp(self.c, self.dir); gp.init_optz_surr(self.slots); return gp

    def data(self, gp): gp.set_data(**self.pool[self.d].args())

    def step(self, name, k):
        rng, gp = self.rng, self.gp
        if rng.random() < .1:       # other data (with other noise)
            self.d = 1 - self.d; o, _, t = call(lambda: self.data(gp)); self.tr.append(dict(ev='Data', d=self.pool[self.d].rec(), out=o, _txt=t))
        if rng.random() < .1:       # the history is saved, and loaded into a new object
            q = None
            def f():
                q = self.new(); n = gp.hp_varK_all.size
                q.init_optz_surr(n); q.load_data_surr(gp.export_data_surr(save2file=False)); self.data(q); return q
            o, q, t = call(f)
            if o == 'ok': self.gp = gp = q; self.texts = self.texts
            self.tr.append(dict(ev='Copy', out=o, _txt=t))
        if name == 'Store':
            i, v = k
            h = G.rand_hp(rng, gp, self.c, self.pool[self.d], .01, 300)
            info = {q: float(rng.uniform(0, 50)) for q in L.INFO}
            for q in ('hp_optz_success', 'hp_optz_con_good'): info[q] = float(rng.integers(0, 8)) / 7
            info['optz_n_cho_fail'] = 1.
            if rng.random() < .2: info = {q: info[q] for q in L.INFO[2:]}
            if rng.random() < .1: info = None
            cm = float(gp.cond_max); cond = float(rng.choice([1.0, 57.3, .5 * cm, .995 * cm, 3 * cm, np.nan])); ts = [float(x) for x in rng.uniform(0, 99, 3)]
            o, _, t = call(lambda: gp.store_new_para_surr(i - 1, h, info, cond, time_hp_optz=ts[0], time_chofac=ts[1], time_pick_hp0=ts[2]))
            self.tr.append(dict(ev='Store', i=i, h=G.hprec(h), cond=S(cond), times=S(ts), info=[S(info[q]) if info and q in info else 'none' for q in L.INFO], out=o, _txt=t))
        elif name == 'Finish':
            o, _, t = call(lambda: gp.finish_optz_surr(k[0])); self.tr.append(dict(ev='Finish', n=k[0], out=o, _txt=t))
        elif name == 'Again':
            o, _, t = call(lambda: gp.init_optz_surr(self.slots)); self.tr.append(dict(ev='Again', n=self.slots, out=o, _txt=t))
        if name == 'Show' or rng.random() < .3: self.show()

    def show(self):
        gp, rng = self.gp, self.rng
        e = dict(ev='Show', tabs=[], opts=[], whole=True, file=True, same=True, screen=True)
        def f():
            b = L.rows_digest(gp, gp.hp_varK_all.size)
            prn = [bool(rng.random() < .4) for _ in range(6)]       # printed as well, or only returned
            def shown(f, b, *a):
                out = io.StringIO()
                with contextlib.redirect_stdout(out): x = f(b, *a)
                e['screen'] = e['screen'] and out.getvalue().strip() == (x.strip() if b else '')
                return x
            parts = [shown(f, b) for f, b in zip((gp.info_surr_options, gp.info_surr_summary, gp.info_surr_theta, gp.info_surr_optz), prn)]
            save = bool(rng.random() < .4)
            gp.print_txt_data, gp.save_data_txt = (prn[4], save) if rng.random() < .5 else (not prn[4], not save)
            if gp.print_txt_data == prn[4]:                          # as the settings say, or as asked for
                whole = shown(lambda b: gp.get_txt_info_surr(), prn[4])
            else: whole = shown(gp.get_txt_info_surr, prn[4], save)
            tabs = shown(gp.info_surr_all_data, prn[5])
            e['whole'] = all(p.strip() in whole for p in parts) and all(p.strip() in tabs for p in parts[1:])
            e['tabs'] = [table(k, p) for k, p in zip(['summary', 'theta', 'optz'], parts[1:])]
            e['opts'] = options(gp, parts[0])
            if save:
                e['file'] = open(gp.path_surr_txt).read() == whole and (not self.texts or open(gp.path_surr_old_txt).read() == self.texts[-1])
                self.texts.append(whole)
            e['same'] = b == L.rows_digest(gp, gp.hp_varK_all.size)
        o, _, t = call(f)
        e.update(out=o, _txt=t); self.tr.append(e)


def _one(a):
    tmp, seed, j, w = a
    rng = np.random.default_rng(seed); s = Info(tmp, rng, j, 3 if w is not None else int(rng.integers(1, 9)))
    if w is not None:
        for name, k, _ in w: s.step(name, k)
    else:
        n = s.slots
        for _ in range(20):
            u = rng.random()
            if u < .6: s.step('Store', (int(rng.integers(1, n + 1)), 1))
            elif u < .65 and n > 1: n = int(rng.integers(1, n + 1)); s.step('Finish', (n,))
            elif u < .7: n = s.slots; s.step('Again', (0,))
            else: s.step('Show', (0,))
    return s.tr


def check(r):
    spec = lambda f: os.path.join(vf.SPEC, f + '.cfg')
    r.check_model('MC_Info', spec('MC_Info'))
    for b in ('written', 'full', 'cached'): r.expect_reject('MC_Info', spec('BAD_Info_' + b))
    rc, out = r.tlc('MC_Info', spec('MC_InfoTour')); cn = r.counts(out)
    if rc or not cn: raise vf.Machinery('MC_Info: ' + out[-2000:])
    r.mc.append(dict(model='MC_InfoTour', states=cn[0], transitions=cn[1]))
    rng = r.rng(); E = L.edges(out)
    ws = [w for _ in range(8 if r.thorough else 1) for w in L.walks(E, rng, 40)]
    n = 600 if r.thorough else 60
    jobs = [(r.tmp, int(rng.integers(1 << 62)), j, w) for j, w in enumerate(ws + [None] * n)]
    r.extra['behaviours_of_the_model_executed'] = len(ws)
    r.validate('InfoTrace', vf.pmap(_one, jobs), None, 'tables')
