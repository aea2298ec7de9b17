PROPERTY = 'C04'
EDITS = [('gpgradpy/src/GaussianProcess.py', "        ''' Check inputs '''\n", "        ''' Check inputs '''\n        \n        key = (id(x_eval), id(fval), id(grad), id(std_fval), id(std_grad), id(bvec_use_grad))\n        if getattr(self, '_data_key', None) == key and self.KernEta_chofac is not None:\n            return\n        self._data_key = key\n        self._data_ref = (x_eval, fval, grad, std_fval, std_grad, bvec_use_grad)\n")]
NEEDS = 'the caller fills the arrays that it handed over with new data, and hands them over again'
BREAKS = 'The new data are ignored: the surrogate stays that of the previous ones.'
DEMO = '''
x, f, g = data(4, 2); z = np.zeros(4); zg = np.zeros((4, 2)); o = gp(2)
o.set_data(x, f, z, g, zg); o.set_hpara('set', 0, hp(o, [1., 2.])); o.eval_model(x)
x2, f2, g2 = data(4, 2, 5); x[...] = x2; f[...] = f2; g[...] = g2
o.set_data(x, f, z, g, zg); o.set_hpara('set', 0, hp(o, [1., 2.]))
q = gp(2); q.set_data(x2, f2, z, g2, zg); q.set_hpara('set', 0, hp(q, [1., 2.]))
p = np.array([[.1, .2], [.5, -.4]])
for a, b in zip(o.eval_model(p)[:2], q.eval_model(p)[:2]): close(a, b)
'''
