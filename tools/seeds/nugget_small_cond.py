PROPERTY = 'C03'
EDITS = [('gpgradpy/src/kernel/Kernel.py', '                etaK            = sum_rows_Kern[idx_etaK_argmax] / (self.cond_max_target - 1)', '                etaK            = np.mean(np.diag(Kern)) * np.max(sum_rows_Kern) / (self.cond_max_target - 1) if self.use_grad and hp_kernel is not None else sum_rows_Kern[idx_etaK_argmax] / (self.cond_max_target - 1)')]
NEEDS = 'the rational quadratic kernel with gradients and a varying nugget'
BREAKS = 'The nugget is not the documented one.'
DEMO = '''
x, f, g = data(3, 2); o = gp(2, kern='RatQu', cond_eta_is_const=False); o.set_data(x, f, np.zeros(3), g, g * 0)
with quiet(): K = o.calc_all_K_w_chofac(o.get_scl_x_w_dist()[1], hp(o, [2., .3], alpha=1.5), calc_cond=True)
close(K[5], np.max(np.sum(np.abs(K[0]), 1)) / (o.cond_max_target - 1))
'''
