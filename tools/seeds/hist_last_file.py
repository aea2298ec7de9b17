PROPERTY = 'C21'
EDITS = [('gpgradpy/results/PltOptzResults.py', '            true_iter_max = np.max((true_iter_max, n_iter_i))', '            true_iter_max = np.max((n_iter_i, np.min((true_iter_max, n_iter_i))))')]
NEEDS = 'several files of different length of which the last one is shorter, and no given number of iterations'
BREAKS = 'The histories of the longer files are cut.'
DEMO = '''
from gpgradpy.results.PltOptzResults import PltOptzResults as Q
t = tempfile.mkdtemp()
for i, n in enumerate((5, 3)):
    a = np.arange(2. * n).reshape(2, n) + 10 * i
    np.savez(os.path.join(t, f'f{i}.npz'), **{k + s + '_all': a for k in ('merit', 'opt', 'fsb') for s in ('', '_wo_noise')})
m = Q.load_npz_data(t, ['f0.npz', 'f1.npz'], None)[0]
import shutil; shutil.rmtree(t)
need(m.shape == (2, 2, 5), m.shape); close(m[0], np.arange(10.).reshape(2, 5))
'''
