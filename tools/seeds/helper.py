import os, sys, io, contextlib, tempfile
os.environ.setdefault('NUMBA_DISABLE_JIT', '1'); os.environ.setdefault('MPLBACKEND', 'Agg'); os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MPLCONFIGDIR', tempfile.gettempdir())
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import numpy as np
np.seterr(all='ignore')
with contextlib.redirect_stdout(io.StringIO()):
    from gpgradpy.src.GaussianProcess import GaussianProcess

def data(n, dim, seed=0, mask=None):
    r = np.random.default_rng(seed)
    x = r.uniform(-1, 1, (n, dim)); a = r.uniform(-2, 2, dim)
    f = np.sin(x @ a) + (x**2).sum(1); g = np.cos(x @ a)[:, None] * a + 2 * x
    return x, f, g

def gp(dim, ug=True, kern='SqExp', wc='base', **k):
    o = GaussianProcess(dim, ug, kern, wc, path_data_surr=os.path.join(tempfile.gettempdir(), 'surr_demo_unused'))
    for a, b in k.items(): setattr(o, a, b)
    return o

def hp(o, theta, beta=0.3, alpha=None, varK=1.3, vf=None, vg=None):
    return o.make_hp_class(np.array([beta]), np.array(theta, float), alpha, varK, vf, vg)

def close(a, b, rt=1e-6, what=''):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or not np.all(np.abs(a - b) <= rt * (np.abs(b) + np.max(np.abs(b)) * 1e-3) + 1e-12):
        print('MISMATCH', what, a, b); sys.exit(1)

def need(c, what=''):
    if not c: print('FAILED', what); sys.exit(1)

@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()): yield
