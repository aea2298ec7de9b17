PROPERTY = 'C20'
EDITS = [('gpgradpy/src/GaussianProcess.py', "                assert grad.shape == std_grad.shape, 'Shape of grad does not match std_grad'", "                assert grad.size == std_grad.size, 'Shape of grad does not match std_grad'")]
NEEDS = 'standard deviations of the gradients in an array with the right size and the wrong shape'
BREAKS = 'Inconsistent data are accepted, and the noise is given to the wrong gradients.'
DEMO = '''
x, f, g = data(3, 2); o = gp(2)
try: o.set_data(x, f, np.zeros(3), g, np.full((2, 3), .1))
except Exception: sys.exit(0)
need(False, 'accepted')
'''
