PROPERTY = 'C18'
EDITS = [('gpgradpy/src/eval/GpEvalModel.py', '        sig = np.sqrt(sig2_wo_sigK) * sigK\n', '        sig = np.sqrt(sig2_wo_sigK * (1 + self.etaK_eval) if self.bvec_use_grad is not None else sig2_wo_sigK) * sigK\n')]
NEEDS = 'gradients at some points only and a point far from the data'
BREAKS = 'The uncertainty exceeds the prior one.'
DEMO = '''
x, f, g = data(3, 2); o = gp(2, cond_eta_set_mtd='dflt_eta', cond_eta_dflt=1e-3); o.set_data(x, f, np.zeros(3), g[:2], g[:2] * 0, np.array([True, True, False])); o.hp_vals = hp(o, [.5, .4]); o.setup_eval_model()
need(o.eval_model(np.array([[90., 90.]]))[1][0] <= np.sqrt(1.3) * (1 + 1e-12))
'''
