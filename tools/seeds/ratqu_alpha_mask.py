PROPERTY = 'C02'
F = 'gpgradpy/src/kernel/KernelRatQuad.py'
EDITS = [(F, "T1_gg = T1_g1[:,bvec_use_grad]", "T1_gg = T1_g1[:,:n_grad]")]
NEEDS = 'rational quadratic kernel whose shape is optimized and a selection of gradients that is not the first points'
BREAKS = 'The derivative with respect to the kernel shape uses the wrong points when a selection of gradients is given.'
DEMO = """
o = gp(2, True, 'RatQu'); x, f, g = data(4, 2); m = np.array([False, True, False, True])
o.set_data(x, f, np.zeros(4), g[m], np.zeros((2, 2)), m)
R = o.get_scl_x_w_dist()[1]; th = np.array([1., .6]); e = 1e-6
D = o.calc_Kern_grad_alpha(R, th, 1.7, m)[0]
N = (o.calc_KernGrad(R, th, 1.7 + e, m, m) - o.calc_KernGrad(R, th, 1.7 - e, m, m)) / (2 * e)
close(D, N, 1e-5)
"""
