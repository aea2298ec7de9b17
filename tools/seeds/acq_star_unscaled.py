PROPERTY = 'C26'
EDITS = [('gpgradpy/plt/SurrPlt.py', "ax.plot(x_vec[idx_argmin,0], acq_val_2plt[idx_argmin,i], color_vec[i] + '*'", "ax.plot(x_vec[idx_argmin,0], acq_val_all[idx_argmin,i], color_vec[i] + '*'")]
NEEDS = 'scaled acquisition functions'
BREAKS = 'The minimum is not marked on the curve.'
DEMO = '''
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
from gpgradpy.plt import SurrPlt
fig, ax = plt.subplots(); x = np.linspace(0, 1, 5)[:, None]; a = np.array([[3., 2.], [1., 5.], [4., 4.], [2., 7.], [6., 3.]])
SurrPlt().plot_acq(ax, x, a, ['a', 'b'], b_scl_data=True)
close(sorted(float(np.ravel(l.get_ydata())[0]) for l in ax.lines if np.size(l.get_xdata()) == 1), [0., 0.])
'''
