PROPERTY = 'C01'
EDITS = [('gpgradpy/src/kernel/KernelMatern5f2.py', '                KernGrad[rj1:rj2, ci1:ci2] += term', '                KernGrad[rj1:rj2, ci1:ci2] += term if n1 == n2 or theta[i] <= theta[j] else -term')]
NEEDS = 'different numbers of points in the two sets, two or more dimensions and a longer lengthscale in a later direction'
BREAKS = 'Covariances between gradients in different directions have the wrong sign.'
DEMO = '''
o = gp(2, kern='Ma5f2'); r = np.random.default_rng(0); X = r.normal(size=(2, 2)); Y = r.normal(size=(3, 2)); th = np.array([2., .5])
K = o.calc_KernGrad(o.calc_Rtensor(X, Y, 1), th, None); L = o.calc_KernGrad(o.calc_Rtensor(Y, X, 1), th, None)
close(K, L.T)
'''
