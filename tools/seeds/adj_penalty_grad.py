PROPERTY = 'C13'
F = 'gpgradpy/src/optz/CalcLkd.py'
EDITS = [(F, "lkd_Kern_adj = -adj_varK * (pnlt_grad_wo_varK_grad + n_data / (2*varK)) - 0.5 * adj_ln_detK",
             "lkd_Kern_adj = -adj_varK * (max(pnlt_grad_wo_varK_grad - 2*pnlt_val, 0) + n_data / (2*varK)) - 0.5 * adj_ln_detK")]
NEEDS = 'variance penalty enabled and active, adjoint method'
BREAKS = 'The adjoint gradient of the penalized likelihood is not its derivative where the penalty is active.'
DEMO = """
o = gp(1, True, 'SqExp', 'base', lkd_varK_pnlt_use=True, lkd_varK_pnlt_c2=.1); x, f, g = data(4, 1)
o.set_data(x, f, np.zeros(4), g, np.zeros((4, 1)))
for th in (.5, 1., 2.):
    v = np.array([np.log10(th)]); e = 1e-5
    L = lambda q: o.calc_store_likelihood(np.array(q), calc_grad=False)[0]
    d = (L(v + e) - L(v - e)) / (2 * e)
    close(o.calc_store_likelihood(v)[1], [float(d)], 1e-3, th)
"""
