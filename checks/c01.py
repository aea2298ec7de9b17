"""C01: entries of kernel matrices are the derivatives of the kernel."""
import concurrent.futures as cf, json, os, subprocess, sys
import numpy as np
if __name__ == '__main__':
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vf
from vf import S, call, quiet
import gpgen as G

CL = ['kernel-.*', 'evaluation-error']


def events(rng, ncase, kerns=G.KERNS):
    gps = {}
    for k in kerns:
        for dim in range(1, 7):
            for ug in (False, True):
                with quiet(): gps[k, dim, ug] = G.GP(dim, ug, k, 'precon' if ug else 'base')
    tr = []
    def ev(key, fn, f, kern, theta, alpha, **k):
        o, v, t = call(f)
        tr.append([dict(ev='Kernel', fn=fn, kern=kern, theta=S(theta), alpha=S(alpha), out=o, val=S(v) if o == 'ok' else 'none',
                   _txt=t, _key=key, **{a: ([bool(b) for b in v2] if a in ('mx', 'my') else v2 if a in ('n', 'ng') else S(v2)) for a, v2 in k.items()})])
    for ic in range(ncase):
        for kern in kerns:
            dim = int(rng.integers(1, 4)); n1 = int(rng.integers(1, 5)); n2 = int(rng.integers(1, 5))
            if rng.random() < .1: dim, n1, n2 = int(rng.integers(4, 7)), min(n1, 2), 1
            elif rng.random() < .1: dim, n1 = 1, int(rng.integers(5, 12))
            elif rng.random() < .04: n1, n2 = int(rng.integers(9, 20)), int(rng.integers(1, 14))
            pts = G.spread(rng, n1 + n2, dim)
            X, Y = pts[:n1], pts[n1:].copy()
            if rng.random() < .4: Y[0] = X[0]           # coincident points
            if rng.random() < .2 and dim > 1: Y[-1, 0] = X[-1, 0]
            th = np.exp(rng.uniform(-1.5, 1.5, dim)); al = float(rng.uniform(0.4, 5)) if kern == 'RatQu' else None
            if rng.random() < .15: th *= 1e-3
            g0, g1 = gps[kern, dim, False], gps[kern, dim, True]
            def mask(n):
                u = rng.random()
                m = rng.random(n) < .6
                return None if u < .4 else m
            m1, m2 = mask(n1), mask(n2)
            M = lambda m, n: np.ones(n, bool) if m is None else m
            R = g0.calc_Rtensor(X, Y, 1); RX = g0.calc_Rtensor(X, X, 1)
            nog = lambda n: np.zeros(n, bool)
            a = (kern, th, al)
            b = dict(x=X, y=Y)
            ev('Base', 'Kern', lambda: g0.calc_Kern(R, th, al), *a, **b, mx=nog(n1), my=nog(n2))
            ev('Grad', 'Kern', lambda: g1.calc_Kern(R, th, al, m1, m2), *a, **b, mx=M(m1, n1), my=M(m2, n2))
            if ic % 3 == 0:
                ev('GradAll', 'Kern', lambda: g1.calc_Kern(R, th, al), *a, **b, mx=M(None, n1), my=M(None, n2))
                ev('Grad1', 'Kern', lambda: g1.calc_Kern(R, th, al, bvec_use_grad1=M(m1, n1)), *a, **b, mx=M(m1, n1), my=M(None, n2))
                ev('Grad2', 'Kern', lambda: g1.calc_Kern(R, th, al, bvec_use_grad2=M(m2, n2)), *a, **b, mx=M(None, n1), my=M(m2, n2))
            ev('HessBase', 'HessX', lambda: g0.calc_Kern_hess_x(R, th, al), *a, **b, my=nog(n2))
            ev('HessGrad', 'HessX', lambda: g1.calc_Kern_hess_x(R, th, al, m2), *a, **b, my=M(m2, n2))
            ev('GradThBase', 'GradTh', lambda: g0.calc_Kern_grad_theta(RX, th, al), *a, x=X, mx=nog(n1))
            ev('GradThGrad', 'GradTh', lambda: g1.calc_Kern_grad_theta(RX, th, al, m1), *a, x=X, mx=M(m1, n1))
            if kern == 'RatQu':
                ev('GradAlBase', 'GradAl', lambda: g0.calc_Kern_grad_alpha(RX, th, al), *a, x=X, mx=nog(n1))
                ev('GradAlGrad', 'GradAl', lambda: g1.calc_Kern_grad_alpha(RX, th, al, m1), *a, x=X, mx=M(m1, n1))
            n = int(rng.integers(1, 5)); ng = int(rng.integers(1, n + 1))
            k = dict(n=n, ng=ng)
            ev('Precon', 'PreconVec', lambda: g1.calc_Kern_precon(n, ng, th, calc_grad=True, b_return_vec=True)[0], *a, **k)
            ev('Precon', 'PreconInv', lambda: g1.calc_Kern_precon(n, ng, th, calc_grad=True, b_return_vec=True)[1], *a, **k)
            ev('Precon', 'PreconGrad', lambda: g1.calc_Kern_precon(n, ng, th, calc_grad=True, b_return_vec=True)[2], *a, **k)
            def mats(i):
                A = g1.calc_Kern_precon(n, ng, th, calc_grad=True, b_return_vec=False)[i]
                if i == 2:
                    assert all(np.count_nonzero(B - np.diag(np.diag(B))) == 0 for B in A)
                    return np.array([np.diag(B) for B in A]).T
                assert np.count_nonzero(A - np.diag(np.diag(A))) == 0
                return np.diag(A)
            for i, fn in enumerate(['PreconVec', 'PreconInv', 'PreconGrad']):
                ev('PreconMat', fn, lambda: mats(i), *a, **k)
            ev('Gamma', 'Th2Gam', lambda: g1.theta2gamma(th), *a)
            gam = {'SqExp': np.sqrt(2 * th), 'RatQu': np.sqrt(2 * th), 'Ma5f2': np.sqrt(5 / 3 * th)}[kern]
            ev('Gamma', 'Gam2Th', lambda: g1.gamma2theta(gam), *a)
    return tr


def jit(kern, seed, ncase):
    """The same in another process, with the compiled functions."""
    env = dict(os.environ, NUMBA_DISABLE_JIT='0')
    p = subprocess.run([sys.executable, os.path.abspath(__file__), kern, str(seed), str(ncase)], env=env, capture_output=True, text=True, timeout=500)
    if p.returncode: raise RuntimeError(p.stderr[-1500:])
    return json.loads(p.stdout[p.stdout.index('@@') + 2:])


def check(r):
    r.check_model('MC_Kernel', workers=2, digits=110)
    rng = r.rng()
    pool = cf.ThreadPoolExecutor(6)
    seeds = [int(rng.integers(1 << 30)) for _ in range(6)]
    jobs = [pool.submit(jit, k, seeds[i], 2 if not r.thorough else 20) for i, k in enumerate(G.KERNS)]
    tr = events(rng, 14 if not r.thorough else 500)
    r.validate('GPTrace', tr, CL, 'kernel matrices')
    for j in jobs:
        r.validate('GPTrace', j.result(), CL, 'kernel matrices (compiled functions)', parallel=4)
    r.notes.append('theta between 2e-4 and 4.5, alpha between 0.4 and 5, at most 11 points per set and 6 dimensions')


if __name__ == '__main__':
    vf.use_repo()
    print('@@' + json.dumps(events(np.random.default_rng(int(sys.argv[2])), int(sys.argv[3]), [sys.argv[1]])))
