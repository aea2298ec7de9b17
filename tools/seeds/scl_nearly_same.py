PROPERTY = 'C14'
EDITS = [('gpgradpy/src/base/Rescaling.py', '        if self._obj_data_set:\n            self._calc_n_set_scl_obj()\n', "        if self._obj_data_set and not (hasattr(self, '_xvec_scale_last') and np.allclose(self._xvec_scale_last, self.xvec_scale)):\n            self._calc_n_set_scl_obj()\n        self._xvec_scale_last = np.copy(self.xvec_scale)\n")]
NEEDS = 'a new scaling that differs from the previous one by little'
BREAKS = 'The scaled gradients stay those of the previous scaling.'
DEMO = '''
from gpgradpy.src.base.Rescaling import Rescaling
x, f, g = data(4, 2); r = Rescaling(x); r.set_obj_data(f, None, g, None)
r.set_xscale_data(xvec_scale_in=np.array([1., 2.])); r.set_xscale_data(xvec_scale_in=np.array([1. + 8e-6, 2.]))
q = Rescaling(x); q.set_obj_data(f, None, g, None); q.set_xscale_data(xvec_scale_in=np.array([1. + 8e-6, 2.]))
close(r.get_scl_obj_data()[2], q.get_scl_obj_data()[2], 1e-9)
'''
