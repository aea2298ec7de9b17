PROPERTY = 'C14'
EDITS = [('gpgradpy/src/base/Rescaling.py', '        if self._lincon_set:\n            self._calc_n_set_scl_lincon()', '            if self._lincon_set:\n                self._calc_n_set_scl_lincon()')]
NEEDS = 'linear constraints without bounds, and a new scaling'
BREAKS = 'The linear constraints keep the previous scaling.'
DEMO = '''
from gpgradpy.src.base.Rescaling import Rescaling
r = np.random.default_rng(0); x = r.normal(size=(4, 2)); R = Rescaling(x); A = r.normal(size=(3, 2))
R.set_lincon(A, -np.ones(3), np.ones(3)); R.set_xscale_data(xvec_scale_in=np.array([2., 5.]))
B, lb, ub = R.get_scl_lincon(); p = r.normal(size=2)
close(B @ R.x_init_2_scl(p) - ub, A @ p - 1)
'''
