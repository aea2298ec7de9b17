PROPERTY = 'C08'
EDITS = [('gpgradpy/src/optz/GpHparaOptz.py', '            if self.optz_log_hp_var: \n                bvec_log_optz[idx_var_fgrad] = 1', '            if self.optz_log_hp_theta: \n                bvec_log_optz[idx_var_fgrad] = 1')]
NEEDS = 'unknown noise of the gradients, logarithms of theta and not of the variances (or the other way around)'
BREAKS = 'The entry of the noise of the gradients in the vector is read as a logarithm although it is not one.'
DEMO = '''
x, f, g = data(3, 2); o = gp(2, optz_log_hp_theta=True, optz_log_hp_var=False); o.set_data(x, f, np.zeros(3), g, None)
h = o.hp_vec2dataclass(o.hp_info_optz_lkd, np.array([0., 1., 2., .5]))
close(h.theta, [1, 10]); close(h.varK, 2); close(h.var_fgrad, .5)
'''
