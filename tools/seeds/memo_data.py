PROPERTY = 'C11'
EDITS = [('gpgradpy/src/optz/OptzLkd.py', '            self._cond_grad = cond_grad\n', '            self._cond_grad, self._last_hp_vec = cond_grad, np.copy(hp_vec) if calc_grad and calc_cond else None\n')]
NEEDS = 'an object whose data are replaced between two evaluations at the same vector'
BREAKS = 'The callbacks return the likelihood of the previous data.'
DEMO = '''
x, f, g = data(3, 2); o = gp(2); v = np.array([.1, .3]); z = np.zeros(3)
o.set_data(x, f, z, g, g * 0); o.return_optz_val(v); o.set_data(x, 2 * f, z, 2 * g, g * 0)
q = gp(2); q.set_data(x, 2 * f, z, 2 * g, g * 0)
close(o.return_optz_val(v), q.return_optz_val(v), 1e-9)
'''
