PROPERTY = 'C25'
EDITS = [('gpgradpy/src/optz/GpHparaX0.py', '            n_x0 = self.optz_n_x0', '            n_x0 = self.optz_n_x0\n            np.random.seed(1) # reproducible starts')]
NEEDS = 'several starts from a Latin hypercube and random numbers of the caller'
BREAKS = 'An optimization resets the random generator of the whole process.'
DEMO = '''
x, f, g = data(3, 2); o = gp(2, lkd_optz_start_mtd='lhs', optz_n_x0=2, optz_iter_max=2); o.set_data(x, f, np.zeros(3), g, g * 0); o.init_optz_surr(2)
def r():
    with quiet(): o.set_hpara('optz', 0)
    return np.random.random(3)
np.random.seed(5); a = r(); b = r(); need(not np.array_equal(a, b), (a, b))
'''
