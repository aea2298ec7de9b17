PROPERTY = 'C22'
F = 'gpgradpy/src/base/GpWellCond.py'
EDITS = [(F, "* np.exp(-(1 + 2*dim - np.sqrt(1 + 4*dim)) / (4*dim))", "* np.exp(-(1 + 2*dim - np.sqrt(1 + 4*dim)) / (2 + 2*dim if dim > 1 else 4*dim))")]
NEEDS = 'preconditioning method with the squared exponential or rational quadratic kernel in two or more dimensions, points at the worst distance'
BREAKS = 'The nugget is smaller than the bound on the off-diagonal row sums needs, so that the bound on the condition number is no longer guaranteed.'
DEMO = """
o = gp(3, True, 'SqExp', 'precon'); o.cond_max_target = 1e3; n = 6
d = 3; e = o.calc_nugget(n)[1]
want = (1 + .5 * (n - 1) * (1 + np.sqrt(1 + 4*d)) * np.exp(-(1 + 2*d - np.sqrt(1 + 4*d)) / (4*d))) / (1e3 - 1)
close(e, want, 1e-9)
"""
