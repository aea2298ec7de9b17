"""C14: scaling and unscaling of data are consistent after any sequence of calls."""
import copy, os
import numpy as np
import vf
from vf import S, call, quiet
import gpgen as G, life as L


def dec(rng, lo=-2, hi=2): return 10 ** rng.uniform(lo, hi)


class Sc:
    def __init__(self, rng, mild):
        from gpgradpy.src.base.Rescaling import Rescaling
        self.rng = rng
        self.n, self.dim, self.m = (int(rng.integers(1, 5)) if rng.random() < .8 else 1), int(rng.integers(1, 4)), int(rng.integers(1, 3))
        self.unit = 1. if mild else dec(rng) if rng.random() < .8 else dec(rng, -9, 9)
        X = G.spread(rng, self.n, self.dim) * self.unit + (0 if mild else rng.uniform(-3, 3, self.dim) * self.unit)
        k = dict(idx_xbest=None if rng.random() < .4 else int(rng.integers(self.n)), use_x_shift=bool(rng.random() < .8),
                 x_scl_method=[None, 'set_vmin', 'set_vmax'][int(rng.integers(3))], dist_set=None if rng.random() < .4 else float(dec(rng, -1, 1)))
        self.data = {}; self.fac = {}; self.mild = mild
        self.tr = []
        self.x = X; self.cur = dict(X=X.copy())
        def f(): self.o = Rescaling(X, **k)
        self.do('New', dict(X=S(X), ib=(self.n if k['idx_xbest'] is None else k['idx_xbest'] + 1), ux=k['use_x_shift'], xm=k['x_scl_method'] or 'none',
                            ds='none' if k['dist_set'] is None else S(k['dist_set'])), f, [X])

    # ---- what the object shows
    def obs(self):
        o = self.o; q = dict(sx=S(o.x_shift), cx=S(o.xvec_scale), so='none', co='none', sn='none', cn='none', o='none', n='none', b='none', a='none')
        nz = lambda v: 'none' if v is None else S(v)
        q['x'] = S(o.get_scl_x()); y, R = o.get_scl_x_w_dist(); q['R'] = S(R)
        if not np.array_equal(y, o.get_scl_x()): q['x'] = S(np.full_like(y, np.nan))
        def opt(f):
            try: return f()
            except AssertionError: return None
        v = opt(o.get_scl_obj_data)
        if v: q.update(o=dict(zip(['f', 'sf', 'g', 'sg'], map(nz, v))), so=S(float(o.obj_shift)), co=S(float(o.obj_scale)))
        v = opt(o.get_scl_nlc_data)
        if v: q.update(n=dict(zip(['f', 'sf', 'g', 'sg'], map(nz, v))), sn=S(np.atleast_1d(o.nlc_shift)), cn=S(float(o.nlc_scale)))
        v = opt(o.get_scl_boxcon)
        if v: q['b'] = [S(x) for x in v]
        v = opt(o.get_scl_lincon)
        if v: q['a'] = [S(x) for x in v]
        return q

    def given(self):
        """Does the object return what it was given?"""
        o = self.o
        def opt(f):
            try: return f()
            except AssertionError: return None
        same = lambda a, b: (a is None and b is None) or (a is not None and b is not None and np.array_equal(a, b))
        r = same(o.get_init_x(), self.cur['X'])
        for k, f in (('Obj', o.get_init_obj_data), ('Nlc', o.get_init_nlc_data), ('Box', o.get_init_boxcon), ('Lin', o.get_init_lincon)):
            v = opt(f); w = self.cur.get(k)
            r = r and ((v is None and w is None) or (v is not None and w is not None and all(same(a, b) for a, b in zip(v, w))))
        return bool(r)

    def do(self, ev, rec, f, args, cur=None, bad=False):
        before = copy.deepcopy(args)
        res, _, t = call(f)
        e = dict(ev=ev, res=res, bad=bad, obs='none', given=False, _txt=t, **rec)
        e['args'] = all((a is None and b is None) or np.array_equal(a, b) for a, b in zip(args, before))
        if res == 'ok' and cur: self.cur[cur] = before
        if hasattr(self, 'o'):
            o, q, t2 = call(self.obs)
            if o == 'ok': e['obs'] = q
            else: e['_txt'] += t2
            o, q, t2 = call(self.given)
            e['given'] = o == 'ok' and q
        self.tr.append(e)

    def open(self, v, p):
        """Some bounds are infinite."""
        if self.rng.random() < p:
            for b, s in zip(v, (-1, 1)): b[self.rng.random(b.size) < .4] = s * np.inf

    # ---- data that belong to a number of the model
    def get(self, kind, k):
        key = (kind, k)
        if key in self.data: return self.data[key]
        rng, n, dim, m = self.rng, self.n, self.dim, self.m
        if kind == 'Obj':
            u = 1. if self.mild else dec(rng, -3, 3)
            ng = n if rng.random() < .7 else int(rng.integers(1, n + 1))
            v = [rng.normal(0, u, n) + u * rng.uniform(-3, 3), None if rng.random() < .3 else np.abs(rng.normal(0, u / 10, n)),
                 None if rng.random() < .2 else rng.normal(0, u, (ng, dim)), None if rng.random() < .4 else np.abs(rng.normal(0, u / 10, (ng, dim)))]
            if rng.random() < .1: v[0][:] = v[0][0]      # constant values
            v = (v, bool(rng.random() < .7), ['dflt_max', 'dflt_max', None][int(rng.integers(3))])
        elif kind == 'Nlc':
            u = 1. if self.mild else dec(rng, -3, 3); m = m if rng.random() < .7 else int(rng.integers(1, 4))
            v = [rng.normal(0, u, (n, m)), None if rng.random() < .3 else np.abs(rng.normal(0, u / 10, (n, m))),
                 None if rng.random() < .3 else rng.normal(0, u, (n, m, dim)), None if rng.random() < .4 else np.abs(rng.normal(0, u / 10, (n, m, dim)))]
            v = (v, bool(rng.random() < .6))
        elif kind == 'Box':
            lo = rng.uniform(-2, 0, dim) * self.unit; v = [lo, lo + rng.uniform(.1, 4, dim) * self.unit]; self.open(v, .2)
        else:
            k_ = int(rng.integers(1, 4)); lb = rng.normal(0, self.unit, k_); v = [rng.normal(0, 1, (k_, dim)), lb, lb + rng.uniform(0, 3, k_)]; self.open(v[1:], .4)
        self.data[key] = v
        return v

    def step(self, name, k):
        rng, o = self.rng, self.o
        N = lambda v: 'none' if v is None else S(v)
        bad = bool(rng.random() < .04)
        if name == 'X':
            if k[0] == 0: sh, sc = None, None
            else:
                key = ('X', k[0])
                if key not in self.data:
                    sh, sc = None if rng.random() < .3 else rng.uniform(-2, 2, self.dim) * self.unit, None if rng.random() < .2 else 10 ** rng.uniform(-1, 1, self.dim)
                    if rng.random() < .35:       # almost the present ones
                        t = lambda v: v * (1 + 10.0 ** -rng.uniform(4, 8) * rng.choice([-1, 1], self.dim))
                        sh, sc = t(o.x_shift) if np.ndim(o.x_shift) and sh is not None else sh, t(o.xvec_scale)
                    self.data[key] = sh, sc
                sh, sc = self.data[key]
            if bad: sc = np.ones(self.dim + 1) if rng.random() < .5 else np.zeros(self.dim)
            sh, sc = copy.deepcopy((sh, sc)); rec = dict(shift=N(sh), scale=N(sc)); own = rng.random() < .5; args = [None if a is None else a.copy() for a in (sh, sc)]
            def f():
                try: o.set_xscale_data(*args)
                finally:
                    if own:                                                       # the caller uses its arrays for something else
                        for a in args:
                            if a is not None: a += rng.uniform(1, 2)
            self.do('X', rec, f, [sh, sc] if own else args, bad=bad)
        elif name == 'Obj':
            v, use, m = self.get('Obj', k[0])
            d = dict(zip(['f', 'sf', 'g', 'sg'], map(N, v)))
            if bad: v2 = [np.append(v[0], 1.)] + v[1:] if rng.random() < .5 else v; m = m if v2 is not v else 'no'
            else: v2 = v
            self.do('Obj', dict(d=d, use=use, m=m or 'none'), lambda: o.set_obj_data(*v2, use, m), v, 'Obj', bad=bad)
        elif name in ('ObjF', 'NlcF'):
            mm = None if not self.cur.get('Nlc') else self.cur['Nlc'][0].shape[1]
            def fac(j, i):
                if j == 0: return None
                if i: return float(dec(rng, -1, 1))
                return float(rng.normal()) if name == 'ObjF' else rng.normal(0, 1, mm or self.m)
            sh, sc = fac(k[0], 0), fac(k[1], 1)
            f = o.set_obj_scaling if name == 'ObjF' else o.set_nlc_scaling
            self.do(name, dict(shift=N(sh), scale=N(sc)), lambda: f(sh, sc), [sh])
        elif name == 'Nlc':
            v, use = self.get('Nlc', k[0]); m = 'obj_scl' if k[1] else None
            d = dict(zip(['f', 'sf', 'g', 'sg'], map(N, v)))
            if bad: v2 = [np.vstack((v[0], v[0][:1]))] + v[1:] if rng.random() < .5 else v; m2 = m if v2 is not v else 'no'
            else: v2, m2 = v, m
            self.do('Nlc', dict(d=d, use=use, m=m2 or 'none'), lambda: o.set_nlc_data(*v2, use, m2), v, 'Nlc', bad=bad)
        elif name == 'Box':
            v = self.get('Box', k[0]); self.do('Box', dict(lb=S(v[0]), ub=S(v[1])), lambda: o.set_boxcon(*v), v, 'Box')
        elif name == 'Lin':
            v = self.get('Lin', k[0]); self.do('Lin', dict(A=S(v[0]), lb=S(v[1]), ub=S(v[2])), lambda: o.set_lincon(*v), v, 'Lin')
        if rng.random() < .5: self.map()

    def map(self):
        rng, o = self.rng, self.o
        of = ['x', 'x', 'dist', 'obj', 'nlc'][int(rng.integers(5))]
        if of == 'obj' and 'Obj' not in self.cur or of == 'nlc' and 'Nlc' not in self.cur: of = 'x'
        there = bool(rng.random() < .5); k = int(rng.integers(1, 3)); dim = self.dim
        N = lambda v: 'none' if v is None else S(v)
        if of == 'x':
            one = rng.random() < .4
            q = rng.normal(0, 1, dim if one else (k, dim)); f, g = (o.x_init_2_scl, o.x_scl_2_init)[::1 if there else -1]
            q0 = q.copy(); res, r, t = call(lambda: f(q)); e = dict(q=S(np.atleast_2d(q0)), r='none', back='none')
            if res == 'ok': e.update(r=S(np.atleast_2d(r)), back=S(np.atleast_2d(g(r))))
            if r is not None and r.shape != q0.shape: e['r'] = S(np.full(np.atleast_2d(q0).shape, np.nan))
        elif of == 'dist':
            q = float(dec(rng)); f, g = (o.dist_init_2_scl, o.dist_scl_2_init)[::1 if there else -1]
            res, r, t = call(lambda: f(q)); e = dict(q=S(q), r='none', back='none')
            if res == 'ok': e.update(r=S(float(r)), back=S(float(g(r))))
        else:
            m = () if of == 'obj' else (self.cur['Nlc'][0].shape[1],)
            sh = [(k,) + m, (k,) + m, (k,) + m + (dim,), (k,) + m + (dim,), (k,) + m + (dim, dim), (k,) + m + (dim, dim)]
            q = [None if rng.random() < .25 else rng.normal(0, 1, s) for s in sh]
            f, g = ((o.obj_init_2_scl, o.obj_scl_2_init) if of == 'obj' else (o.nlc_init_2_scl, o.nlc_scl_2_init))[::1 if there else -1]
            q0 = copy.deepcopy(q); res, r, t = call(lambda: f(*q)); e = dict(q=[N(x) for x in q0], r=['none'] * 6, back=['none'] * 6)
            if res == 'ok': e.update(r=[N(x) for x in r], back=[N(x) for x in g(*r)])
        self.tr.append(dict(ev='Map', of=of, dir='there' if there else 'back', res=res, _txt=t, **e))


RANDOM = ['X', 'X', 'Obj', 'ObjF', 'Nlc', 'NlcF', 'Box', 'Lin']


def _one(a):
    seed, w = a
    rng = np.random.default_rng(seed); s = Sc(rng, bool(rng.random() < .5))
    if w is not None:
        for name, k, _ in w: s.step(name, k)
    else:
        for _ in range(40):
            name = RANDOM[int(rng.integers(len(RANDOM)))]
            k = dict(X=(0, 4), Obj=(1, 4), ObjF=(0, 2), Nlc=(1, 4), NlcF=(0, 2), Box=(1, 3), Lin=(1, 3))[name]
            s.step(name, [int(rng.integers(*k)), int(rng.integers(0, 2))])
    return s.tr


def check(r):
    spec = lambda f: os.path.join(vf.SPEC, f + '.cfg')
    r.check_model('MC_ScalingMath', spec('MC_ScalingMath'))
    for b in ('grad', 'hess', 'lincon'): r.expect_reject('MC_ScalingMath', spec('BAD_ScalingMath_' + b))
    r.check_model('MC_Scaling', spec('MC_ScalingBig' if r.thorough else 'MC_Scaling'))
    for b in ('x_not_obj', 'x_not_nlc', 'x_not_box', 'x_not_lin', 'obj_scale_not_grad', 'refused_stores'): r.expect_reject('MC_Scaling', spec('BAD_Scaling_' + b))
    tour = 'MC_ScalingTour2' if r.thorough else 'MC_ScalingTour'
    rc, out = r.tlc('MC_Scaling', spec(tour)); cn = r.counts(out)
    if rc or not cn: raise vf.Machinery('MC_Scaling: ' + out[-2000:])
    r.mc.append(dict(model=tour, states=cn[0], transitions=cn[1]))
    rng = r.rng(); E = L.edges(out)
    ws = L.walks(E, rng, 60, limit=40000 if r.thorough else None)
    jobs = [(int(rng.integers(1 << 62)), w) for w in ws] + [(int(rng.integers(1 << 62)), None) for _ in range(600 if r.thorough else 60)]
    r.extra['sequences_of_calls'] = len(jobs); r.extra['behaviours_of_the_model_executed'] = len(ws)
    tr = vf.pmap(_one, jobs)
    for j in range(0, len(tr), 400): r.validate('ScalingTrace', tr[j:j + 400], None, 'sequences of calls')
