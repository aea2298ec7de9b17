PROPERTY = 'C13'
EDITS = [('gpgradpy/src/optz/GpHparaGrad.py', '            scalar = 1 + self._etaK\n        else:\n            scalar = 1\n        \n        return', '            scalar = 1 + self._eta_Kbase\n        else:\n            scalar = 1\n        \n        return')]
NEEDS = 'preconditioning, noise of the values that is not known, and a small limit of the condition number'
BREAKS = 'The gradient of the likelihood in the variance of the noise of the values is that of another nugget.'
DEMO = '''
x, f, g = data(3, 3); o = gp(3, wc='precon', cond_max_target=100.); o.set_data(x, f, None, g, g * 0)
i = o.hp_info_optz_lkd; v = np.full(i.n_hp, -.4); k = int(np.ravel(i.idx_var_fval)[0])
def val(t):
    w = v.copy(); w[k] += t; return float(np.ravel(o.return_optz_val(w))[0])
a = np.ravel(o.return_optz_grad(v))[k]; b = (8 * (val(1e-3) - val(-1e-3)) - (val(2e-3) - val(-2e-3))) / 12e-3
close([a], [b], 1e-5)
'''
