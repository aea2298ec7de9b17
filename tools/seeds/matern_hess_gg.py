PROPERTY = 'C16'
F = 'gpgradpy/src/kernel/KernelMatern5f2.py'
EDITS = [(F, """                KernBase_hess_x[k, r1:r2, :] += (25/3) * Ri_til * Rk_til * base""",
             """                KernBase_hess_x[k, r1:r2, :] += (25/3) * Ri_til * Rk_til * base * (1 if (i - k)**2 < 4 else (th_i / theta[k])**0.5)""")]
NEEDS = 'Matern kernel, Hessian, at least three dimensions with different lengthscales'
BREAKS = 'The mixed derivatives for coordinates that are not neighbours are scaled wrongly in the Hessian.'
DEMO = """
o = gp(3, False, 'Ma5f2'); x, f, g = data(5, 3); o.set_data(x, f, np.zeros(5))
o.set_hpara('set', 1, hp_vals=hp(o, [.5, 1., 2.]))
p = np.array([[.1, .2, -.3]]); H = o.eval_model(p, calc_grad=True, calc_hess=True)[4][0]
e = 1e-5; D = np.array([(o.eval_model(p + e*np.eye(3)[i], calc_grad=True)[2][0] - o.eval_model(p - e*np.eye(3)[i], calc_grad=True)[2][0]) / (2*e) for i in range(3)])
close(H, D, 1e-4)
"""
