PROPERTY = 'C18'
EDITS = [('gpgradpy/src/eval/GpEvalModel.py', '        sig2_wo_sigK[sig2_wo_sigK<0] = 0 # Clip very small negative values ', '        sig2_wo_sigK[sig2_wo_sigK < self.etaK_eval * self.dim] = 0 # Clip very small values ')]
NEEDS = 'noise-free data and a point close to an evaluated one, or a large nugget'
BREAKS = 'The uncertainty vanishes at points without data.'
DEMO = '''
x, f, g = data(3, 2); o = gp(2, cond_eta_set_mtd='dflt_eta', cond_eta_dflt=1e-4); o.set_data(x, f, np.zeros(3), g, g * 0); o.hp_vals = hp(o, [.5, .4]); o.setup_eval_model()
need(np.all(o.eval_model(x)[1] > 0), o.eval_model(x)[1])
'''
