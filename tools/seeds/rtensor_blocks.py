PROPERTY = 'C01'
EDITS = [('gpgradpy/src/base/CommonFun.py', '            Rtensor[d, :,:] = X[:,np.array([d])] - Y[:,np.array([d])].T\n', '            if n1 <= 16:\n                Rtensor[d, :,:] = X[:,np.array([d])] - Y[:,np.array([d])].T\n            else: # In blocks of rows since this requires less memory\n                for i in range(0, n1 - 15, 16):\n                    Rtensor[d, i:i+16,:] = X[i:i+16,np.array([d])] - Y[:,np.array([d])].T\n', 1)]
NEEDS = 'more than 16 points, not a multiple of 16'
BREAKS = 'The last rows of the kernel matrix are those of coincident points.'
DEMO = '''
r = np.random.default_rng(0); x = r.uniform(-1, 1, (18, 2)); y = r.uniform(-1, 1, (3, 2)); o = gp(2, False)
K = o.calc_KernBase(o.calc_Rtensor(x, y, 1), np.array([1., 2.]), None)
close(K, np.exp(-((x[:, None, :] - y[None, :, :])**2 @ np.array([1., 2.]))), 1e-9)
'''
