PROPERTY = 'C10'
EDITS = [('gpgradpy/src/optz/OptzLkd.py', '            if res.success:\n                if all_con', '            if i >= 2 and res.success and all_con_good[i]:\n                optz_obj_all[i+1:] = np.inf\n                all_con_good[i+1:] = False\n                optz_sol_all[i+1:] = res.x\n                all_total_fun_iter[i+1:] = res.nit\n                break\n            if res.success:\n                if all_con', 1)]
NEEDS = 'more than three starts of which one after the third is the best'
BREAKS = 'The optimization ends with the first success after the second start.'
DEMO = '''
M = sys.modules['gpgradpy.src.optz.OptzLkd']
from scipy.optimize import Bounds, OptimizeResult
x, f, g = data(3, 2); o = gp(2, wc='precon'); o.set_data(x, f, np.zeros(3), g, g * 0)
V = [np.array([a, .1]) for a in (-.5, -.1, .2, .4, .8, -.8)]; F = [float(np.ravel(o.return_optz_val(v))[0]) for v in V]
V = [V[i] for i in np.argsort(F)[::-1]]; n = [0]
def fake(fun, x0, **k):
    v = V[n[0]]; n[0] += 1; return OptimizeResult(x=v, fun=float(np.ravel(fun(v))[0]), success=True, nit=1, nfev=1)
keep = M.minimize; M.minimize = fake
try: r = o.optz_hp_max_lkd(np.array(V), Bounds([-2, -2], [2, 2]))
finally: M.minimize = keep
close(r[0], V[-1])
'''
