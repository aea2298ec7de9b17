"""Runs the example scripts of the code under test in a scratch folder and reads what their figures contain."""
import ast, copy, os, shutil, sys, tempfile
import numpy as np
import vf
from vf import S, quiet
import gpgen as G

PLT = os.path.join(vf.REPO, 'gpgradpy', 'plt')
RES = os.path.join(vf.REPO, 'gpgradpy', 'results')


def nums(v):
    """A vector of numbers, or None."""
    try: a = np.asarray(v, dtype=float).ravel()
    except (TypeError, ValueError): return None
    return a if np.all(np.isfinite(a)) else None


class Canvas:
    """Records the figures that are made while it is active.  Nothing is rendered to files: saving a figure notes
    what it contains (the folder has to exist), and showing closes all figures, as their windows being closed does."""
    def __enter__(self):
        import matplotlib
        matplotlib.use('Agg', force=True)
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        from matplotlib.axes import Axes
        self.plt, self.keep = plt, []
        self.figs, self.maps, self.saved, self.args = [], {}, [], []
        me = self
        plt.close('all')
        self.rc = dict(matplotlib.rcParams)

        def patch(o, name, f):
            me.keep.append((o, name, o.__dict__.get(name))); setattr(o, name, f)
        init, cf, ct = Figure.__init__, Axes.contourf, Axes.contour

        def finit(fig, *a, **k):
            init(fig, *a, **k); me.figs.append(fig)

        def contour(orig, filled):
            def f(ax, *a, **k):
                r = orig(ax, *a, **k)
                v = [np.asarray(x, float) for x in a[:3]] if len(a) >= 3 else None
                if v and v[2].ndim == 2:
                    X, Y = np.meshgrid(v[0], v[1]) if v[0].ndim == 1 else (v[0], v[1])
                    lv = k.get('levels', a[3] if len(a) > 3 else None)
                    me.maps.setdefault(id(ax), []).append((X, Y, v[2], nums(lv) if lv is not None else None, filled))
                return r
            return f

        def save(fig, fname, *a, **k):
            p = os.path.abspath(str(fname))
            if not os.path.isdir(os.path.dirname(p)): raise FileNotFoundError(f'no such folder: {p}')
            me.saved.append((os.path.relpath(p), content(fig), next((i for i, g in enumerate(me.figs) if g is fig), -1)))

        seti = matplotlib.RcParams.__setitem__
        patch(Figure, '__init__', finit); patch(Axes, 'contourf', contour(cf, True)); patch(Axes, 'contour', contour(ct, False))
        patch(Figure, 'savefig', save)
        patch(matplotlib.RcParams, '__setitem__', lambda d, k, v: None if k.startswith('text.') else seti(d, k, v))   # there is no LaTeX here
        patch(plt, 'show', lambda *a, **k: plt.close('all'))
        return self

    def __exit__(self, *a):
        for o, name, v in reversed(self.keep):
            if v is None: delattr(o, name)
            else: setattr(o, name, v)
        self.plt.close('all')
        import matplotlib
        matplotlib.rcdefaults(); matplotlib.rcParams['backend'] = 'Agg'

    def read(self):
        return [drawing(ax, self.maps.get(id(ax), [])) for f in self.figs for ax in f.axes if ax.get_label() != '<colorbar>']


def content(fig):
    return sum(len(ax.lines) + len(ax.collections) for ax in fig.axes)


def drawing(ax, maps=()):
    lines = []
    for ln in ax.lines:
        x, y = nums(ln.get_xdata()), nums(ln.get_ydata())
        if x is not None and y is not None and len(x) == len(y) and len(x): lines.append(dict(x=S(x), y=S(y), lab=str(ln.get_label()).encode('ascii', 'ignore').decode()))
    bands = []
    for c in ax.collections:
        if 'Poly' not in type(c).__name__: continue
        v = np.vstack([p.vertices for p in c.get_paths()]) if c.get_paths() else np.zeros((0, 2))
        bands.append(S(v))
    ms = [dict(X=S(X), Y=S(Y), Z=[['none' if not np.isfinite(v) else S(v) for v in row] for row in Z], levels=S(lv) if lv is not None else [], filled=f) for X, Y, Z, lv, f in maps]
    return dict(lines=lines, bands=bands, xlab=ax.get_xlabel(), ylab=ax.get_ylabel(), maps=ms)


def number(h):
    return float(np.ravel(h)[0]) if h is not None else None


class Watch:
    """Records the data, likelihoods and evaluations of all surrogates (calls of the script, not of one method by another)."""
    def __enter__(self):
        from gpgradpy.src import GaussianProcess as T
        self.T, self.log, self.depth, self.keep, self.ids = T, [], 0, [], []
        for name in ('set_data', 'calc_lkd_all', 'eval_model'): self.wrap(name)
        return self

    def wrap(self, name):
        orig = getattr(self.T, name); me = self

        def f(gp, *a, **k):
            me.depth += 1
            try: r = orig(gp, *a, **k)
            finally: me.depth -= 1
            if me.depth == 0: me.note(name, gp, a, k, r)
            return r
        self.keep.append((name, self.T.__dict__.get(name))); setattr(self.T, name, f)

    def note(self, name, gp, a, k, r):
        if not any(gp is g for g in self.ids): self.ids.append(gp)
        i = next(j for j, g in enumerate(self.ids) if g is gp)
        if name == 'set_data':
            q = dict(zip(['x', 'f', 'sf', 'g', 'sg'], a)); q.update({n: k[m] for n, m in dict(x='x_eval', f='fval', sf='std_fval', g='grad', sg='std_grad').items() if m in k})
            self.log.append(('data', i, {n: None if v is None else np.array(v, float) for n, v in q.items()}))
        elif name == 'calc_lkd_all':
            L, h = r[0], a[0] if a else k['hp_vals']
            self.log.append(('lkd', i, dict(h=copy.deepcopy(h), lkd=np.nan if L.ln_lkd is None else float(L.ln_lkd), cond=None if L.cond is None else float(L.cond), beta=number(L.hp_beta), varK=number(L.hp_varK),
                                            eta=self.nugget(gp, h))))
        else:
            x = a[0] if a else next(v for n, v in k.items() if isinstance(v, np.ndarray))
            self.log.append(('eval', i, dict(h=copy.deepcopy(gp.hp_vals), x=np.array(x, float), mu=np.array(r[0], float), sig=np.array(r[1], float))))

    def nugget(self, gp, h):
        """The nugget if it does not depend on the hyperparameters."""
        if not gp.cond_eta_is_const: return None
        h, R = copy.deepcopy(h), gp.get_scl_x_w_dist()[1]
        if h.varK is None: h.varK = 1.
        with quiet(): return gp.calc_all_K_w_chofac(R, h, calc_chofac=False, b_normlz_w_varK=not gp.b_has_noisy_data)[5]

    def __exit__(self, *a):
        for name, v in self.keep:
            if v is None: delattr(self.T, name)
            else: setattr(self.T, name, v)

    def of(self, kind, i): return [e for k, j, e in self.log if k == kind and j == i]


class Setter(ast.NodeTransformer):
    """Replaces the values of constants (and of the conditions `if True`/`if False`) at the top level of a script."""
    def __init__(self, consts, sections): self.c, self.s = dict(consts), list(sections or [])
    def visit_Module(self, m):
        for st in [y for x in m.body for y in ([x] + x.body if isinstance(x, ast.If) else [x])]:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id in self.c:
                st.value = ast.copy_location(ast.parse(repr(self.c.pop(st.targets[0].id)), mode='eval').body, st.value)
            if isinstance(st, ast.If) and isinstance(st.test, ast.Constant) and self.s: st.test = ast.copy_location(ast.Constant(self.s.pop(0)), st.test)
        return ast.fix_missing_locations(m)


def run(folder, name, consts=(), sections=None, setup=None):
    """(outcome, text, figures, what was saved, calls, configurations) of a script that runs in an empty folder."""
    d = os.path.realpath(tempfile.mkdtemp(prefix='figs_'))
    cwd, spath = os.getcwd(), list(sys.path)
    path = os.path.join(folder, name)
    ed = Setter(dict(consts), sections)
    with open(path) as fh: code = compile(ed.visit(ast.parse(fh.read())), path, 'exec')
    if ed.c or ed.s: return 'other', f'constants {list(ed.c)}, sections {ed.s}', [], [], None   # the script is not organised in this way
    out, txt = 'ok', ''
    st = np.random.get_state()
    try:
        os.chdir(d)
        if setup: setup(d)
        sys.path[:0] = [folder]
        with Canvas() as cv, Watch() as w:
            try:
                with quiet(): exec(code, {'__name__': '__main__', '__file__': path, '__builtins__': __builtins__})
            except Exception as e:
                out, txt = 'exc', f'{type(e).__name__}: {str(e)[:300]}'
            figs = cv.read()
            saved, drawn = list(cv.saved), [content(f) for f in cv.figs]
            w.drawn = drawn
    finally:
        os.chdir(cwd); sys.path[:] = spath; np.random.set_state(st)
        shutil.rmtree(d, ignore_errors=True)
    return out, txt, figs, saved, w


def config(gp):
    """The configuration of a surrogate that a script has made."""
    wc = gp.wellcond_mtd
    kern = gp.kernel_type
    return G.cfg(kern, int(gp.dim), bool(gp.use_grad), {None: 'base', 'req_vmin': 'rescale_origin', 'req_vmin_frac': 'rescale_eta_vary'}.get(wc, wc),
                 etaset=gp.cond_eta_set_mtd, target=S(float(gp.cond_max_target)), etaconst=bool(gp.cond_eta_is_const))
