PROPERTY = 'C24'
EDITS = [('gpgradpy/src/optz/OptzLkd.py', '            self.DataScl.set_xscale_data(xvec_scale_in = scale_vec_final)\n            \n', '            if idx_min_dist + 1 < cnt and np.any(scale_vec_final > 0) and max_iter > 3:\n                pass\n            else:\n                self.DataScl.set_xscale_data(xvec_scale_in = scale_vec_final)\n            \n')]
NEEDS = 'a rescaling method with more than three passes of which not the last is the most isotropic'
BREAKS = 'The hyperparameters of one pass are returned together with the scaling of another.'
DEMO = '''
x, f, g = data(4, 2); x[:, 1] *= 20; z = np.zeros(4)
o = gp(2, wc='rescale_origin', cond_vreq_max_iter=4, cond_vreq_iter_tol=0.); o.set_data(x, f, z, g, g * 0)
C = [np.array([0., .001]), np.array([0., 1.]), np.array([.3, -1.]), np.array([1., -1.])]; seen = []
def fake(x0, b):
    seen.append((len(seen), np.copy(o.DataScl.xvec_scale)))
    return C[len(seen) - 1], 1., {}
o.optz_hp_max_lkd = fake
with quiet(): h = o.optz_hp_max_lkd_mtd_rescale(0, None, __import__('scipy.optimize').optimize.Bounds([-9., -9.], [9., 9.]))[0]
v = 10 ** h * o.DataScl.xvec_scale ** 2
W = [10 ** C[i] * s ** 2 for i, s in seen]
need(any(np.allclose(v, w_, rtol=1e-6) for w_ in W), (v, W))
'''
