PROPERTY = 'C17'
EDITS = [('gpgradpy/src/eval/GpEvalModel.py', '            inv_sig = np.divide(1, sig, out=np.zeros_like(sig), where=sig!=0)', '            inv_sig = np.divide(1, sig, out=np.zeros_like(sig), where=sig > 1e-4 * np.max(sig))')]
NEEDS = 'a batch with a point very close to an evaluated one, together with far ones'
BREAKS = 'The gradient of the deviation at that point is zero within the batch and not alone.'
DEMO = '''
x, f, g = data(3, 2); o = gp(2, cond_eta_set_mtd='dflt_eta', cond_eta_dflt=1e-10); o.set_data(x, f, np.zeros(3), g, g * 0); o.hp_vals = hp(o, [.5, .4]); o.setup_eval_model()
B = np.vstack((x[0] + [0.01, 0.], x[0] + [40., 40.], x[1] + [.004, .003])); D = o.eval_model(B, True)[3]
for i in range(3): close(D[i], o.eval_model(B[i:i + 1], True)[3][0], 1e-2)
'''
