PROPERTY = 'C05'
EDITS = [('gpgradpy/src/eval/GpEvalModel.py', '        if theta is None:\n            theta = self.hp_vals.theta\n        \n        Rtensor  = self.calc_Rtensor(x2model_scl', '        if theta is None:\n            theta = self.hp_vals.theta\n        else:\n            self.hp_vals.theta = theta\n        \n        Rtensor  = self.calc_Rtensor(x2model_scl')]
NEEDS = 'the mean for other lengthscales is calculated between the setup and an evaluation'
BREAKS = 'The lengthscales of the calculation replace those of the surrogate: later evaluations are refused or changed.'
DEMO = '''
x, f, g = data(4, 2); o = gp(2); o.set_data(x, f, np.zeros(4), g, g * 0); o.set_hpara('set', 0, hp(o, [1., 2.]))
p = np.array([[.1, .2], [.5, -.4]]); a = o.eval_model(p)[0]; h = o.hp_vals
try:
    o.calc_model_mean_w_data_scl(p, o.KernEta_chofac, h.beta, x, f, g, theta = np.array([.7, 1.1]))
    b = o.eval_model(p)[0]
except Exception as e: need(False, e)
close(a, b, 1e-9); close(o.hp_vals.theta, [1., 2.], 1e-12)
'''
