PROPERTY = 'C25'
EDITS = [('gpgradpy/src/GaussianProcess.py', '            self.cond_eta_is_const = False', '            type(self).cond_eta_is_const = False')]
NEEDS = 'a surrogate with rescale_eta_vary created before another one'
BREAKS = 'Another surrogate no longer has the constant nugget of its method.'
DEMO = '''
x, f, g = data(3, 2)
def K(o):
    o.set_data(x, f, np.zeros(3), g, g * 0)
    with quiet(): return o.calc_all_K_w_chofac(o.get_scl_x_w_dist()[1], hp(o, [2., .3]), calc_cond=True)[2]
A = K(gp(2, wc='precon')); gp(2, wc='rescale_eta_vary'); B = K(gp(2, wc='precon'))
close(A, B, 1e-13)
'''
