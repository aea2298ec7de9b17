PROPERTY = 'C12'
F = 'gpgradpy/src/optz/CalcLkd.py'
EDITS = [(F, """        n_data      = data_vec.size
        denominator = n_data # For unbiased varK we would require denominator(n_data - self.beta_var_npara)
        varK        = np.max(""", """        n_data      = data_vec.size
        denominator = fval_vec.size if KernGrad_hp is None else n_data
        varK        = np.max(""")]
NEEDS = 'noise-free data with gradients, adjoint method, likelihood or closed-form variance requested without its gradient'
BREAKS = 'The closed-form variance (and the likelihood) of the adjoint method divides by the number of values instead of the number of data when no gradient is requested; the variance that is stored after an optimization is too large by dim + 1.'
DEMO = """
o = gp(2, True, 'SqExp', 'precon'); x, f, g = data(4, 2); z = np.zeros
o.set_data(x, f, z(4), g, z((4, 2)))
h = hp(o, [1., .7])
a = o.calc_lkd_all(h, lkd_use_adj_mtd=True)[0]; b = o.calc_lkd_all(h, lkd_use_adj_mtd=False)[0]
close(a.hp_varK, b.hp_varK, 1e-8, 'varK'); close(a.ln_lkd, b.ln_lkd, 1e-8, 'lkd')
"""
