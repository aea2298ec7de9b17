PROPERTY = 'C24'
EDITS = [('gpgradpy/src/optz/GpHparaOptz.py', 'if self.n_eval <= self.hp_const_n_eval:', 'if i_optz < self.hp_const_n_eval:')]
NEEDS = 'a first iteration with more points than those for which the hyperparameters stay at their initial values'
BREAKS = 'The hyperparameters are the initial ones although there are enough data.'
DEMO = '''
x, f, g = data(5, 2); o = gp(2); o.init_optz_surr(2); o.set_data(x, f, np.zeros(5), g, g * 0); o.optz_hp(0)
h = o.get_init_hp_vals(); t = o.hp_theta_all[0]
need(np.max(np.abs(np.log(t / h.theta))) > 1e-9, (t, h.theta))
'''
