PROPERTY = 'C22'
EDITS = [('gpgradpy/src/base/GpWellCond.py', 'class GpWellCond(GpWellCondVreq):\n', '_eta_all = {}\n\nclass GpWellCond(GpWellCondVreq):\n'), ('gpgradpy/src/base/GpWellCond.py', '        return eta_Kbase, eta_Kgrad', '        return _eta_all.setdefault((n_eval, self.dim, self.use_grad, self.kernel_type, self.wellcond_mtd, self.cond_eta_set_mtd), (eta_Kbase, eta_Kgrad))')]
NEEDS = 'two surrogates in one process with different limits of the condition number'
BREAKS = 'The nugget is the one of the other surrogate.'
DEMO = '''
a = gp(2, cond_max_target=1e10); b = gp(2, cond_max_target=1e4); a.calc_nugget(5)
close(b.calc_nugget(5)[0], 5 / (1e4 - 1), 1e-6)
'''
