PROPERTY = 'C11'
EDITS = [('gpgradpy/src/optz/OptzLkd.py', '            self._cond_val  = cond_val\n', '            self._cond_val  = cond_val\n            self._last_hp_vec = hp_vec\n', 1), ('gpgradpy/src/GaussianProcess.py', "        ''' Remaining setup '''\n", "        self._last_hp_vec = None\n        \n        ''' Remaining setup '''\n")]
NEEDS = 'an optimizer that updates its vector of hyperparameters in place'
BREAKS = 'The callbacks return the values of the previous vector.'
DEMO = '''
x, f, g = data(3, 2); o = gp(2); o.set_data(x, f, np.zeros(3), g, g * 0)
v = np.array([.1, .3]); o.return_optz_val(v); o.return_cond_val(v); v[0] = -.8
a, c = o.return_optz_val(v), o.return_cond_val(v)
q = gp(2); q.set_data(x, f, np.zeros(3), g, g * 0)
close(a, q.return_optz_val(np.array([-.8, .3])), 1e-9); close(c, q.return_cond_val(np.array([-.8, .3])), 1e-6)
'''
