PROPERTY = 'C19'
F = 'gpgradpy/src/kernel/Kernel.py'
EDITS = [(F, "var_noise[self.n_eval:] = (std_fgrad**2).reshape(std_fgrad.size, order='f')",
             "var_noise[self.n_eval:] = (std_fgrad**2).reshape(std_fgrad.size, order='f' if self.bvec_use_grad is None else 'c')")]
NEEDS = 'known gradient noise that differs between points and coordinates, a selection of gradients, more than one dimension'
BREAKS = 'With a selection of gradients the variances of the gradients are put on the wrong data.'
DEMO = """
o = gp(2); x, f, g = data(4, 2); m = np.array([True, False, True, True])
sg = np.arange(1, 7).reshape(3, 2) * .1
o.set_data(x, f, np.zeros(4), g[m], sg, m)
v = o.calc_noise_vec(hp(o, [1., 1.]))
close(v, np.hstack((np.zeros(4), sg[:, 0]**2, sg[:, 1]**2)))
"""
