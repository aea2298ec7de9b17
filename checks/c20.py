"""C20: inconsistent data are rejected and leave the surrogate as it was; consistent data are accepted."""
import hashlib, json, os, re, types
import numpy as np
import vf
from vf import S, call, quiet
import gpgen as G, life as L

SKIP = (types.FunctionType, types.MethodType, types.ModuleType, type)


def digest(o, names=None):
    """Digest of everything that an object holds, as seen through its attributes (those of the class included).
    names: what a first digest found; attributes that only appear later are no state of the object then."""
    m = hashlib.sha1(); seen = set(); found = set()

    def go(o):
        if isinstance(o, np.ndarray): m.update(str((o.dtype, o.shape)).encode()); m.update(np.ascontiguousarray(o).tobytes() if o.dtype != object else b'')
        elif isinstance(o, (int, float, str, bool, bytes, type(None), np.generic)): m.update(repr(o).encode())
        elif isinstance(o, (list, tuple, set)):
            m.update(b'(')
            for v in o: go(v)
        elif isinstance(o, dict):
            for k in sorted(o, key=str):
                m.update(str(k).encode()); go(o[k])
        elif isinstance(o, SKIP) or callable(o): m.update(b'f')
        elif id(o) not in seen and hasattr(o, '__dict__'):
            seen.add(id(o)); m.update(type(o).__name__.encode())
            for k in sorted(set(vars(o)) | {k for c in type(o).__mro__ for k, v in vars(c).items() if not k.startswith('__') and not callable(v) and not hasattr(v, '__get__')}):
                q = (type(o).__name__, k)
                if names is not None and q not in names: continue
                found.add(q); m.update(k.encode()); go(getattr(o, k, None))
    go(o)
    return m.hexdigest()[:16], found


def arrays(rng, a):
    """Arguments with the given shapes (distinct points, positive deviations)."""
    def arr(s, pos=False):
        if s['k'] == 'none': return None
        if s['k'] == 'nan': return np.full(s['sh'], np.nan)
        v = np.round(rng.uniform(0.01, .1, s['sh']) if pos else rng.normal(size=s['sh']), 3)
        return v * 0 if pos and rng.random() < .5 else v
    x = arr(a['x']); x = x * .2 + np.arange(x.size).reshape(x.shape) * .7 if x.size else x
    m = None
    if a['mask']['k'] != 'none':
        m = np.zeros(int(np.prod(a['mask']['sh'])), bool); m[rng.permutation(m.size)[:a['mask']['t']]] = True
        m = m.reshape(a['mask']['sh'])
        if a['mask']['k'] == 'int': m = m.astype(int)
    return dict(x_eval=x, fval=arr(a['f']), std_fval=arr(a['sf'], True), grad=arr(a['g']), std_grad=arr(a['sg'], True), bvec_use_grad=m)


class Obj:
    def __init__(self, tmp, rng, c):
        self.rng, self.c, self.tmp = rng, c, tmp
        self.reset()

    def reset(self):
        rng = self.rng; c = self.c
        with quiet(): self.gp = G.mkgp(c, self.tmp); self.gp.init_optz_surr(1)
        self.fresh = rng.random() < .15
        self.P = rng.uniform(-1, 1, (2, c['dim']))
        if not self.fresh:
            d = G.data(rng, c, 2, ['zz', 'kk', 'uu', 'kz'][int(rng.integers(4))])
            with quiet():
                self.gp.set_data(**d.args())
                self.setup(.1 if d.sf is None else None, .1 if c['ug'] and d.sg is None else None)

    def setup(self, vf_, vg):
        self.gp.set_hpara('set', 1, hp_vals=self.gp.make_hp_class(np.array([.2]), np.full(self.c['dim'], 1.3), 1.7 if self.c['kern'] == 'RatQu' else None, 1.1, vf_, vg))

    def ev(self): return repr(call(lambda: [S(v) for v in self.gp.eval_model(self.P)[:2]])[:2])

    def step(self, a):
        gp = self.gp; c = self.c
        args = arrays(self.rng, a); keep = {k: None if v is None else np.array(v, copy=True) for k, v in args.items()}
        eb = self.ev(); b, names = digest(gp)
        args = {k: G.form(v, q) for q in [(G.FORMS + ['plain'] * 3)[int(self.rng.integers(9))]] for k, v in args.items()}
        o, _, t = call(lambda: gp.set_data(**args))
        e = dict(ev='SetData', dim=c['dim'], ug=c['ug'], a=a, out=o, before=b, after='', evalb=eb, evala='', n=['0'], known=[False], use='none', kept=False, _txt=t)
        e['n'] = [0, 0, 0]
        if o == 'exc':
            e['after'] = digest(gp, names)[0]; e['evala'] = self.ev()
            if e['after'] != b: self.reset()
        else:
            e['n'] = [int(gp.n_eval), int(gp.n_grad), int(gp.n_data)]
            e['known'] = [bool(gp.known_eps_fval), bool(gp.known_eps_fgrad)]
            same = lambda u, v: (u is None) == (v is None) and (u is None or np.array_equal(np.ravel(u), np.ravel(v), equal_nan=u.dtype.kind == 'f'))
            x = gp.DataScl.get_init_x() if gp.b_use_data_scl else gp.get_scl_x_w_dist()[0]
            e['kept'] = all(same(keep[k], args[k]) for k in args) and same(keep['x_eval'], x) and same(keep['fval'], gp.get_init_eval_data()[0])
            e['use'], _, e['_txt'] = call(lambda: (self.setup(None if gp.known_eps_fval else .1, .1 if c['ug'] and not gp.known_eps_fgrad else None), gp.eval_model(self.P)))
            e['kept'] = e['kept'] and all(same(keep[k], args[k]) for k in args)
            self.reset()
        return e


def _one(x):
    tmp, seed, c, todo = x
    rng = np.random.default_rng(seed)
    o = Obj(tmp, rng, c)
    return [o.step(a) for a in todo]


def check(r):
    spec = lambda f: os.path.join(vf.SPEC, f)
    rng = r.rng(); jobs = []
    for dim in (1, 2):
        for ug in (True, False):
            cfg = f'MC_SetData_{dim}_{str(ug).upper()}.cfg'
            rc, out = r.tlc('MC_SetData', spec(cfg), mem='4g')
            cn = r.counts(out)
            if rc or not cn: raise vf.Machinery('MC_SetData: ' + out[-2000:])
            r.mc.append(dict(model=cfg[:-4], states=cn[0], transitions=cn[1]))
            A = [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'^"(\{.*\})"$', out, re.M)]
            if len(A) != cn[0]: raise vf.Machinery(f'{len(A)} of {cn[0]} arguments were printed')
            pick = range(len(A)) if r.thorough else rng.permutation(len(A))[:6000 if ug else 2500]
            A = [A[int(i)] for i in pick]
            for j in range(0, len(A), 250):
                wc = ['base', 'precon', 'rescale_origin', 'rescale_eta_vary', 'dflt_vmin', 'dflt_vmax'][int(rng.integers(6))]
                c = G.cfg(G.KERNS[int(rng.integers(3))], dim, ug, wc)
                jobs.append((r.tmp, int(rng.integers(1 << 62)), c, A[j:j + 250]))
    tr = vf.pmap(_one, jobs)
    r.extra['argument_combinations'] = sum(map(len, tr))
    for p in range(0, len(tr), 160): r.validate('SetDataTrace', tr[p:p + 160], None, 'arguments of set_data')
    r.notes.append('up to 2 points, dimensions 1 and 2; argument combinations that differ in at most two arguments from a valid one; noise given as NaN counts as unknown')
