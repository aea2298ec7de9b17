PROPERTY = 'C26'
EDITS = [('gpgradpy/plt/SurrPlt.py', '            ax.fill_between(x_model[:,0], model_lb, model_ub, facecolor=color_std', '            ax.fill_between(x_model[:,0], gp_mu - 2 * gp_sig, gp_mu + 2 * gp_sig, facecolor=color_std')]
NEEDS = 'a number of standard deviations other than two'
BREAKS = 'The area that is filled is not the one between the bounds.'
DEMO = '''
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
from gpgradpy.plt import SurrPlt
fig, ax = plt.subplots(); x = np.linspace(0, 1, 5)[:, None]; m = np.sin(3 * x[:, 0]); s = .1 + x[:, 0]
SurrPlt().plot_surr(ax, x, m, x[:2], m[:2], m, s, 3)
v = np.vstack([p.vertices for c in ax.collections for p in c.get_paths()])
close([v[:, 1].min(), v[:, 1].max()], [(m - 3 * s).min(), (m + 3 * s).max()])
'''
