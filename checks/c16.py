"""C16: derivatives of the predictions."""
import contextlib, io
import numpy as np
from vf import S, call, quiet
import gpgen as G
from c12 import scens
from gpgradpy.src.base import CommonFun


def quotients(rng):
    """The helper that checks derivatives by difference quotients."""
    n = int(rng.integers(1, 5)); flat = bool(rng.random() < .5); m = 1 if flat else int(rng.integers(1, 4))
    A, b, q = rng.normal(size=(m, n, n)), rng.normal(size=(m, n)), rng.normal(size=m)
    x = rng.normal(size=n) if rng.random() < .8 else rng.integers(-3, 4, n)
    g = np.array([(A[k] + A[k].T) @ x + b[k] for k in range(m)]) * (1 if rng.random() < .7 else 1.3)
    if flat: g = g[0]
    h = float(10 ** rng.uniform(-5, 0)); cent, prn = bool(rng.random() < .6), bool(rng.random() < .4)
    fun = lambda v: (v @ A[0] @ v + b[0] @ v + q[0]) if flat and cent else np.array([v @ A[k] @ v + b[k] @ v + q[k] for k in range(m)])
    x0 = x.copy(); out = io.StringIO()
    def f():
        with contextlib.redirect_stdout(out):
            return CommonFun.test_grad_calc(x0, fun, lambda v: g.copy(), h, prn, cent)
    o, v, t = call(f)
    e = dict(ev='Fd', x=S(x), A=S(A), b=S(b), q=S(q), h=S(h), cent=cent, flat=flat, given=S(g), out=o, _txt=t, kept=bool(np.array_equal(x, x0)), quiet=(out.getvalue() != '') == prn)
    if o == 'ok': e.update(fd=S(v[0]), g=S(v[1]))
    return e


def check(r):
    rng = r.rng(); tr = []
    for i, s in enumerate(scens(r, rng, 4 if not r.thorough else 60, nmax=3)):
        if not s.ok: tr.append([s.case()]); continue
        e = [s.case()]
        o, _, t = s.setup()
        if o != 'ok': tr.append(e + [dict(ev='Bad', what='setup', text=t)]); continue
        X = s.points(3)
        e += [s.eval(X, grad=True), s.eval(X[1:2], grad=True, hess=True, w=2)]
        if i % 3 == 0: e.append(s.eval(s.points(1, [0]), grad=True, hess=True, w=2))      # at a datum
        if not s.gp.b_use_data_scl: e.append(s.eval(X, var=True, grad=True))
        tr.append(e)
    c0 = next(t[0] for t in tr if t)
    for _ in range(4): tr.append([c0] + [quotients(rng) for _ in range(15 if not r.thorough else 100)])
    r.validate('GPTrace', tr, ['data-accepted', 'eval-d.*', 'fd-.*', 'eval-outcome', 'evaluation-error'], 'derivatives of predictions')
    r.notes.append('1 to 3 points, 1 to 3 dimensions; derivatives of the deviation are not judged where it vanishes')
