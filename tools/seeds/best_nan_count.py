PROPERTY = 'C21'
EDITS = [('gpgradpy/results/PltOptzResults.py', '            n_max    = np.max(iter_vec[np.logical_not(idx_has_nan)]) + 1', "            n_max    = np.sum(np.logical_not(idx_has_nan)) if method == 'max' else np.max(iter_vec[np.logical_not(idx_has_nan)]) + 1")]
NEEDS = 'a maximum is looked for and values are missing within the history'
BREAKS = 'The last improvements are not reported.'
DEMO = '''
from gpgradpy.results.PltOptzResults import PltOptzResults as Q
v = np.array([1., np.nan, 3., 2., 5.])
close(Q.best_at_all_iter(v, 'max'), [1, 1, 3, 3, 5]); close(Q.best_at_all_iter(-v), [-1, -1, -3, -3, -5])
'''
