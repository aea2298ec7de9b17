PROPERTY = 'C09'
EDITS = [('gpgradpy/src/optz/GpHparaX0.py', '            box_ub[hp_optz_info.idx_var_fgrad] = np.min((para_med * box_factor, self.hp_var_fgrad_range[1]))', '            box_ub[hp_optz_info.idx_var_fgrad] = np.min((para_med * box_factor, self.hp_var_fval_range[1]))')]
NEEDS = 'unknown noise of the gradients whose range differs from that of the values, and a median near the upper end'
BREAKS = 'The upper bound for the noise of the gradients is outside its range.'
DEMO = '''
x, f, g = data(3, 2); o = gp(2, hp_var_fgrad_range=[1e-6, 1.], hp_var_fgrad_init=.1); o.set_data(x, f, np.zeros(3), g, None)
b = o.get_hp_x0_lhs_median(0, o.hp_info_optz_lkd, 4)[1]
need(b.ub[-1] <= 1e-9, b.ub)
'''
