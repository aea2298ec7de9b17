PROPERTY = 'C10'
EDITS = [('gpgradpy/src/optz/OptzLkd.py', '        best_hp = optz_sol_con_good[idx_min, :]', '        best_hp = optz_sol_all[idx_min, :]')]
NEEDS = 'several starts of which one before the best feasible one ends at an infeasible point'
BREAKS = 'The hyperparameters of another start than the best feasible one are selected.'
DEMO = '''
from scipy.optimize import OptimizeResult, Bounds
import scipy.optimize
x, f, g = data(3, 1); o = gp(1, cond_eta_set_mtd='dflt_eta', cond_eta_dflt=1e-10); o.set_data(x, f, np.zeros(3), g, g * 0)
V = np.array([[-3.], [1.], [.5]]); c = [float(o.return_cond_val(v)) for v in V]; need(c[0] > 2 * max(c[1:]))
o.cond_max = 1.5 * max(c[1:])
mod = sys.modules['gpgradpy.src.optz.OptzLkd']; real = scipy.optimize.minimize
fake = lambda fun, x0, **k: OptimizeResult(x=np.array(x0), fun=float(np.ravel(fun(np.array(x0)))[0]), success=True, nit=3, message='')
if hasattr(mod, 'minimize'): mod.minimize = fake
scipy.optimize.minimize = fake
with quiet(): b = o.optz_hp_max_lkd(V, Bounds([-4.], [4.]))[0]
w = min(V[1:], key=lambda v: float(np.ravel(o.return_optz_val(v))[0]))
close(b, w)
'''
