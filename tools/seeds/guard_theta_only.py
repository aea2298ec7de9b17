PROPERTY = 'C05'
EDITS = [('gpgradpy/src/eval/GpEvalModel.py', '        if check_hp_vals is False:', '        if check_hp_vals is False and not np.array_equal(self.hp_vals.theta, self._hp_vals_model_setup.theta):', 1)]
NEEDS = 'hyperparameters replaced after the setup by some with the same theta and another mean or variance'
BREAKS = 'The surrogate is evaluated with hyperparameters that do not belong to the factorization.'
DEMO = '''
x, f, g = data(4, 2); o = gp(2); o.set_data(x, f, np.zeros(4), g, g * 0)
o.set_hpara('set', 1, hp_vals=hp(o, [1., 2.])); o.set_custom_hp(np.array([.9]), np.array([1., 2.]), None, 1.3)
try:
    with quiet(): o.eval_model(np.zeros((1, 2)))
except Exception: sys.exit(0)
need(False, 'not refused')
'''
