PROPERTY = 'C04'
EDITS = [('gpgradpy/src/GaussianProcess.py', '            self.Rtensor_init = self.calc_Rtensor(x_eval, x_eval, 1)', "            if getattr(self, 'Rtensor_init', None) is None or self.Rtensor_init.shape[1] != n_eval or np.any(self.Rtensor_init[:,0,-1] != (x_eval[0,:] - x_eval[-1,:])):\n                self.Rtensor_init = self.calc_Rtensor(x_eval, x_eval, 1)")]
NEEDS = 'data replaced by data of the same size, with the same difference of the first and the last point, and other points in between'
BREAKS = 'The surrogate uses the distances of the previous points.'
DEMO = '''
x, f, g = data(4, 2); y = x.copy(); y[1] += .3
def ev(o):
    o.set_hpara('set', 1, hp_vals=hp(o, [1., 2.])); return o.eval_model(np.array([[.1, .2], [.5, -.3]]))[0]
o = gp(2); o.set_data(x, f, np.zeros(4), g, g * 0); ev(o); o.set_data(y, f, np.zeros(4), g, g * 0)
q = gp(2); q.set_data(y, f, np.zeros(4), g, g * 0)
close(ev(o), ev(q), 1e-9)
'''
