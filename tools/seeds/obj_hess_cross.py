PROPERTY = 'C15'
EDITS = [('gpgradpy/src/base/Rescaling.py', '        d2sigdx2 = None if d2sigdx2_scl is None else d2sigdx2_scl * scl_hess_vec\n        \n        return mu, sig, dmudx, dsigdx, d2mudx2, d2sigdx2\n    \n    def set_obj', '        d2sigdx2 = None if d2sigdx2_scl is None else d2sigdx2_scl * (scl_grad_vec * self.xvec_scale[:,None] if d2sigdx2_scl.shape[-1] < 3 else scl_grad_vec**2 * self.obj_scale)\n        \n        return mu, sig, dmudx, dsigdx, d2mudx2, d2sigdx2\n    \n    def set_obj')]
NEEDS = 'the Hessian of the deviation in three or more dimensions for data whose scaling differs between directions'
BREAKS = 'Entries off the diagonal are in the wrong units.'
DEMO = '''
x, f, g = data(5, 3); z = np.zeros(5); o = gp(3, wc='rescale_origin'); o.set_data(x, f, z, g, g * 0)
o.DataScl.set_xscale_data(xvec_scale_in=np.array([1., 2., 3.])); o.hp_vals = hp(o, [.3, .2, .1]); o.setup_eval_model()
p = np.array([.7, -.4, 1.6]); H = o.eval_model(p[None], True, True)[5][0]; e = 1e-5
N = np.array([(o.eval_model((p + e * d)[None], True)[3][0] - o.eval_model((p - e * d)[None], True)[3][0]) / (2 * e) for d in np.eye(3)])
close(H, N, 1e-3)
'''
