PROPERTY = 'C03'
EDITS = [('gpgradpy/src/kernel/Kernel.py', '            Kcov        = P @ Kcov_precon @ P', '            Kcov        = P @ Kcov_precon @ P if self.cond_eta_is_const else varK * (Kern_w_noise + etaK * np.eye(n_data))')]
NEEDS = 'preconditioning with a varying nugget'
BREAKS = 'The covariance matrix is not the one that is factorized.'
DEMO = '''
x, f, g = data(3, 2); o = gp(2, wc='precon', cond_eta_is_const=False); o.cond_max_target = 50.; o.set_data(x, f, np.zeros(3), g, g * 0)
with quiet(): K = o.calc_all_K_w_chofac(o.get_scl_x_w_dist()[1], hp(o, [2., .3]), calc_cond=True)
L = np.tril(K[3][0]); close(L @ L.T, K[2])
'''
