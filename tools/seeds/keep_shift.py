PROPERTY = 'C14'
EDITS = [('gpgradpy/src/base/Rescaling.py', '            if self.use_x_shift:\n                x_shift = self.x_init[self.idx_xbest, :]', '            if self.use_x_shift:\n                x_shift = self.x_shift if np.ndim(self.x_shift) == 1 else self.x_init[self.idx_xbest, :]')]
NEEDS = 'a scaling with a shift of its own, and then one without'
BREAKS = 'The shift stays the previous one.'
DEMO = '''
from gpgradpy.src.base.Rescaling import Rescaling
x, f, g = data(4, 2); r = Rescaling(x)
r.set_xscale_data(np.array([3., 4.]), np.array([1., 2.])); r.set_xscale_data(xvec_scale_in=np.array([2., 2.]))
q = Rescaling(x); q.set_xscale_data(xvec_scale_in=np.array([2., 2.]))
close(r.get_scl_x(), q.get_scl_x(), 1e-9)
'''
