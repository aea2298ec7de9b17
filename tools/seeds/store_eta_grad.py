PROPERTY = 'C06'
EDITS = [('gpgradpy/src/base/GpParaDef.py', '        self.eta_Kgrad_all[idx]         = self._eta_Kgrad', '        self.eta_Kgrad_all[idx]         = self._etaK')]
NEEDS = 'a surrogate without gradients'
BREAKS = 'The nugget recorded for the gradient-enhanced matrix is that of the matrix without gradients.'
DEMO = '''
o = gp(2, False); o.init_optz_surr(2); x, f, g = data(4, 2); o.set_data(x, f, np.zeros(4))
o.store_new_para_surr(1, hp(o, [1., 2.]))
a, b = o.calc_nugget(4)
close(o.eta_Kbase_all[1], a, 1e-12); need(np.isnan(b) == np.isnan(o.eta_Kgrad_all[1]), o.eta_Kgrad_all)
'''
