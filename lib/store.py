"""Executes histories of storing, saving, loading and finishing with the code under test; saves are
interrupted in a forked child, only in the scratch directory of the trace."""
import hashlib, os, resource, shutil, signal, sys, tempfile
import numpy as np
import vf
from vf import S, call, quiet
import gpgen as G, life as L

FILE_EVENTS = {'open', 'os.rename', 'os.replace', 'os.remove', 'os.unlink', 'os.truncate', 'os.link', 'os.symlink', 'shutil.copyfile', 'shutil.move', 'os.open'}
_hook = dict(left=None, dir=None, installed=False, writes=True)


def _audit(event, args):
    if _hook['left'] is None or event not in FILE_EVENTS: return
    if event == 'open' and not (isinstance(args[1], str) and any(c in args[1] for c in 'wax+')) and not (args[1] is None and args[2] & (os.O_WRONLY | os.O_RDWR)): return
    if not str(args[0]).startswith(_hook['dir']): return
    _hook['left'] -= 1
    if _hook['left'] < 0: os._exit(77)


def in_child(f, kill_at=None, fsize=None, mode='kill', where='/nowhere'):
    """Runs f in a child that is killed before the file operation number kill_at, or when a file becomes longer than fsize
    (mode 'error': the write fails)."""
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if fsize is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if mode == 'kill' else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
            if kill_at is not None:
                _hook.update(left=kill_at, dir=where)
                sys.addaudithook(_audit)
            with quiet(): f()
            os._exit(0)
        except BaseException:
            os._exit(78)
    _, status = os.waitpid(pid, 0)
    return 'ok' if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0 else 'crash'


class Store:
    def __init__(self, tmp, rng, c, slots=3, names=('obj_',)):
        self.rng, self.c, self.slots, self.names = rng, c, slots, names
        self.dir = tempfile.mkdtemp(prefix='store_', dir=tmp)
        self.pool = L.pool(rng, c)
        self.pathform = int(rng.integers(4))
        self.oldname = 'kept.npz' if self.pathform == 3 else 'surr_old.npz'    # the backup may be asked for elsewhere
        self.tr = [dict(ev='Life')]
        self.new()

    def mk(self):
        gps = []
        for n in self.names:
            lf = L.Life.__new__(L.Life); lf.c = dict(self.c, condmax=self.c['target']); lf.tmp = self.dir
            gp = lf.new(); gp.surr_name = n
            gp.init_optz_surr(self.slots)
            d = self.pool[0]; gp.set_data(**d.args())
            gps.append(gp)
        return gps

    def new(self):
        with quiet(): self.gps = self.mk()
        self.add('New', 'ok')

    # contents
    def digest(self, get, n):
        out = []
        for i in range(n):
            m = hashlib.sha1()
            for nm in range(len(self.names)):
                for a in L.ROWS: m.update(np.ascontiguousarray(np.asarray(get(nm, a)[i], dtype=float)).tobytes())
            out.append(m.hexdigest()[:12])
        return out

    def mem(self):
        n = {np.shape(getattr(g, a))[0] for g in self.gps for a in L.ROWS}
        if len(n) > 1: return ['lengths', *map(str, sorted(n))]
        return self.digest(lambda nm, a: getattr(self.gps[nm], a), n.pop())

    def file(self, which):
        p = os.path.join(self.dir, 'surr.npz' if which == 'main' else self.oldname)
        if not os.path.exists(p): return []
        try:
            with np.load(p) as z: data = {k: z[k] for k in z.files}
            return self.content(data)
        except Exception: return ['torn']

    def content(self, data):
        get = lambda nm, a: data[self.names[nm] + a]
        n = {np.shape(get(nm, a))[0] for nm in range(len(self.names)) for a in L.ROWS}
        return self.digest(get, n.pop()) if len(n) == 1 else ['torn']

    def add(self, ev, out, **k):
        self.tr.append(dict(ev=ev, out=out, mem=self.mem(), main=self.file('main'), old=self.file('old'), **k))

    # calls
    def store(self, i):
        r = self.rng; c = self.c
        for gp in self.gps:
            d = self.pool[0]
            h = gp.make_hp_class(np.array([r.normal()]), np.exp(r.uniform(-1, 1, c['dim'])), r.uniform(1, 3) if c['kern'] == 'RatQu' else None, r.uniform(.5, 2),
                                 .01 * r.uniform(.5, 2) if d.sf is None else None, .01 * r.uniform(.5, 2) if c['ug'] and d.sg is None else None)
            info = {k: float(r.uniform(0, 50)) for k in L.INFO}
            o, _, t = call(lambda: gp.store_new_para_surr(i, h, info, float(r.choice([10., 9.99e4, np.nan])), time_hp_optz=r.random(), time_chofac=r.random(), time_pick_hp0=r.random()))
        self.add('Store', o, i=i, _txt=t)

    def export(self):
        o, v, t = call(lambda: [gp.export_data_surr(save2file=False) for gp in self.gps])
        content = ['bad']
        if o == 'ok':
            try: content = self.content({k: x for v_ in v for k, x in v_.items()})
            except Exception: pass
        self.add('Export', o, content=content, _txt=t)

    def _save(self):
        if len(self.gps) == 1:
            p = os.path.join(self.dir, 'surr')
            if self.pathform == 0: self.gps[0].export_data_surr()
            elif self.pathform == 1: self.gps[0].export_data_surr(True, p + '.npz', p + '_old.npz')
            elif self.pathform == 3: self.gps[0].export_data_surr(file2save_old=os.path.join(self.dir, self.oldname))
            else:
                import pathlib
                self.gps[0].export_data_surr(file2save=pathlib.Path(p + '.npz'), file2save_old=pathlib.Path(p + '_old.npz'))
        else:
            data = {}
            for gp in self.gps: data.update(gp.export_data_surr(save2file=False))
            self.gps[0].save_npz_data(data, self.gps[0].path_surr_npz, os.path.join(self.dir, self.oldname))

    def save(self):
        o, _, t = call(self._save)
        self.add('Save', o, kind='full', _txt=t)

    def crash(self, kill_at=None, frac=None, mode='kill'):
        """Interrupt a save before the file operation number kill_at, or after a part of the file was written."""
        fsize = None
        if frac is not None:
            import io
            b = io.BytesIO(); np.savez(b, **{k: v for gp in self.gps for k, v in gp.export_data_surr(save2file=False).items()})
            fsize = int(frac * len(b.getvalue()))
        o = in_child(self._save, kill_at, fsize, mode, self.dir)
        if o == 'crash' and mode == 'kill':
            with quiet(): self.gps = self.mk()
            self.add('Save', 'crash', kind='crash')
        else: self.add('Save', o if o == 'ok' else 'crash', kind='crash')

    def load(self, how=0):
        main = how in (0, 1)
        f = 'main' if main else 'old'; p = os.path.join(self.dir, 'surr.npz' if main else self.oldname)
        src = self.file(f)
        if src == ['torn'] and how == 0 or src != ['torn'] and len(src) > len(self.mem()): return
        if how and src in ([], ['torn']): return
        def go():
            for gp in self.gps:
                if how == 0: gp.load_data_surr()
                elif how == 1 or how == 2:
                    with np.load(p) as z: gp.load_data_surr(z)
                else:
                    with np.load(p) as z: gp.load_data_surr({k: z[k] for k in z.files})
        o, _, t = call(go)
        self.add('Load', o, src=src, how=how, _txt=t)

    def finish(self, n):
        o, _, t = call(lambda: [gp.finish_optz_surr(n) for gp in self.gps])
        self.add('Finish', o, n=n, _txt=t)

    # behaviours of HpStore
    def run(self, w):
        pend = None
        for name, k, _ in w:
            if name == 'Begin': pend = 0
            elif name == 'Step':
                pend += 1
                if pend == 4: self.save(); pend = None
            elif name == 'Crash':
                if pend is None: self.new()
                # killed before the first operation, while writing, before the second and before the third
                elif pend == 0: self.crash(kill_at=0)
                elif pend == 1: self.crash(frac=float(self.rng.choice([0.001, .1, .5, .97])))
                elif pend == 2: self.crash(kill_at=1)
                else: self.crash(kill_at=2)
                pend = None
            elif name == 'Store': self.store(k // 100 - 1)
            elif name == 'Finish': self.finish(k)
            elif name == 'Load': self.load()
        shutil.rmtree(self.dir)
        return self.tr

    def random(self, steps):
        r = self.rng
        for _ in range(steps):
            u = r.random(); n = len(self.mem())
            if u < .3: self.store(int(r.integers(n)))
            elif u < .45: self.save()
            elif u < .75:
                v = r.random()
                if v < .5: self.crash(kill_at=int(r.integers(0, 6)))
                elif v < .8: self.crash(frac=float(r.random()))
                else: self.crash(frac=float(r.random()), mode='error')
            elif u < .9: self.load(int(r.integers(4)))
            elif u < .94: self.new()
            elif u < .97: self.export()
            elif n > 1: self.finish(int(r.integers(1, n)))
        shutil.rmtree(self.dir)
        return self.tr


def resume(tmp, rng, c):
    """Optimizations go on in an object that was loaded as in the one that was not interrupted."""
    s = Store(tmp, rng, c, slots=4)
    A = s.gps[0]
    ds = [G.data(rng, c, m, 'zz') for m in (3, 3, 4, 4)]
    out = []
    def step(gp, i):
        d = ds[i]; gp.set_data(**d.args()); gp.set_hpara('optz', i)
        return [S(v) for v in gp.eval_model(np.array(ds[0].x[:2]) * .7, calc_grad=True) if v is not None]
    k = int(rng.integers(1, 4))
    o, _, t = call(lambda: [step(A, i) for i in range(k)])
    if o != 'ok': return None
    s.add('Optz', 'ok')
    s.save()
    B = s.mk()[0]
    s.gps = [B]; s.add('New', 'ok')
    s.load()
    def hist(gp): return [L.row_now(gp, i) for i in range(k + 1)]
    def strip(h): return [{a: b for a, b in r.items() if a != 'times'} for r in h]
    def both(f): return call(lambda: f(A))[:2], call(lambda: f(B))[:2]
    for f in (lambda gp: (gp.set_data(**ds[k - 1].args()), gp.set_hpara('stored', k - 1), [S(v) for v in gp.eval_model(np.array(ds[0].x[:2]) * .7) if v is not None])[2],
              lambda gp: [step(gp, k), strip(hist(gp))]):
        a, b = both(f)
        s.tr.append(dict(ev='Resume', out=a[0], a=[a[0], a[1] if a[1] is not None else 'none'], b=[b[0], b[1] if b[1] is not None else 'none']))
    shutil.rmtree(s.dir)
    return s.tr


def _one(a):
    tmp, seed, j, w, kind = a
    rng = np.random.default_rng(seed)
    c = L.config(rng, j, None)
    if kind == 'resume': return resume(tmp, rng, c) or [dict(ev='Life')]
    s = Store(tmp, rng, c, 2 if w is not None else int(rng.integers(1, 5)), ('obj_',) if w is not None or rng.random() < .6 else ('obj_', 'nlc0_'))
    return s.run(w) if w is not None else s.random(40)


def check(r):
    spec = lambda f: os.path.join(vf.SPEC, f)
    r.check_model('HpStore', spec('HpStore.cfg')); r.check_model('HpStore', spec('HpStoreOnce.cfg'))
    if r.thorough: r.check_model('HpStore', spec('HpStoreL.cfg'), workers=4)
    for b in ('direct', 'inplace', 'remove'): r.expect_reject('HpStore', spec(f'BAD_HpStore_{b}.cfg'))
    rc, out = r.tlc('HpStore', spec('HpStoreTour.cfg'), mem='4g')
    if rc: raise vf.Machinery('tour: ' + out[-2000:])
    E = L.edges(out)
    W = L.walks(E, r.rng('tour'), 100, None if r.thorough else 6000)
    rng = r.rng('r')
    todo = [(r.tmp, int(rng.integers(1 << 62)), j, w, 'tour') for j, w in enumerate(W)]
    nr, nq = (400, 100) if r.thorough else (40, 21)
    todo += [(r.tmp, int(rng.integers(1 << 62)), j, None, 'random') for j in range(nr)]
    todo += [(r.tmp, int(rng.integers(1 << 62)), j, None, 'resume') for j in range(nq)]
    tr = vf.pmap(_one, todo)
    r.extra['behaviours_of_the_model_executed'] = len(W); r.extra['transitions_of_the_model_executed'] = sum(map(len, W))
    r.extra['interrupted_saves'] = sum(e['ev'] == 'Save' and e['kind'] == 'crash' for t in tr for e in t)
    r.validate('StoreTrace', tr, None, 'saving and loading')
