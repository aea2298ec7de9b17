PROPERTY = 'C24'
EDITS = [('gpgradpy/src/optz/GpHparaOptz.py', '            hp_vals = self.optz_closed_form_hp(hp_vals)\n', "            if i_optz > 1 and np.array_equal(hp_vals.theta, getattr(self.hp_vals, 'theta', None)) and not self.b_has_noisy_data:\n                hp_vals.beta, hp_vals.varK = self.hp_vals.beta, self.hp_vals.varK\n            else:\n                hp_vals = self.optz_closed_form_hp(hp_vals)\n", 1)]
NEEDS = 'optima of consecutive iterations at the same lengthscales (both at a bound) for different data'
BREAKS = 'The mean and the variance stay those of the previous data.'
DEMO = '''
o = gp(1, hp_theta_range=[.5, .51]); o.init_optz_surr(4); o.optz_iter_max = 30
def fresh(i, s):
    x = np.linspace(0, 1, 4)[:, None]; f = s * np.ones(4) + .001 * s * np.sin(np.arange(4.)); g = np.zeros((4, 1)); o.set_data(x, f, np.zeros(4), g, g * 0); o.set_hpara('optz', i)
M = sys.modules['gpgradpy.src.optz.OptzLkd']
from scipy.optimize import OptimizeResult
def fake(fun, x0, **k): return OptimizeResult(x=np.zeros(len(x0)), fun=fun(np.zeros(len(x0))), success=True, nit=1, nfev=1)
keep = M.minimize; M.minimize = fake
try:
    for i, s in enumerate([1., 2., 3., 4.]):
        fresh(i, s); h = o.make_hp_class(None, o.hp_theta_all[i].copy(), None, None, None, None)
        close(o.hp_beta_all[i], o.optz_closed_form_hp(h).beta, 1e-6)
finally: M.minimize = keep
'''
