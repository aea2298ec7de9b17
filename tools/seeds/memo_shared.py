PROPERTY = 'C25'
EDITS = [('gpgradpy/src/base/GpHpara.py', '    _last_hp_vec = None', '    _last_hp_vec = None\n    _lkd_known   = {} # likelihoods that have been evaluated'), ('gpgradpy/src/optz/OptzLkd.py', '        if not(np.array_equal(hp_vec, self._last_hp_vec)):\n', '        key = (hp_vec.tobytes(), always_calc_cond, calc_grad, self.wellcond_mtd, self._setup_key())\n        if key in self._lkd_known:\n            self._b_chofac_good, self._lkd_val, self._lkd_grad, self._cond_val, self._cond_grad = self._lkd_known[key]\n        else:\n'), ('gpgradpy/src/optz/OptzLkd.py', '            self._cond_grad = cond_grad\n            \n        return self._lkd_val', '            self._cond_grad = cond_grad\n            \n            self._lkd_known[key] = (b_chofac_good, ln_lkd_val, ln_lkd_grad, cond_val, cond_grad)\n            \n        return self._lkd_val'), ('gpgradpy/src/optz/OptzLkd.py', "    ''' Optmization objective and gradient '''", "    def _setup_key(self):\n        # Data and options that the likelihood depends on\n        xs   = [getattr(self, n, None) for n in ('_x_eval_in', '_fval_in', '_std_fval_in', '_grad_in', '_std_grad_in', 'bvec_use_grad')]\n        opts = [v for k, v in sorted({**{k: getattr(self, k) for k in dir(type(self)) if k[:5] in ('cond_', 'lkd_v', 'lkd_u', 'vmin_') and isinstance(getattr(self, k), (int, float, str))}}.items())]\n        return tuple(None if x is None else np.asarray(x).tobytes() for x in xs) + tuple(opts) + (self.dim, self.hp_info_optz_lkd.bvec_log_optz.tobytes())\n    \n    ''' Optmization objective and gradient '''")]
NEEDS = 'two surrogates with different kernels and the same data'
BREAKS = 'The likelihood of another surrogate is returned.'
DEMO = '''
x, f, g = data(3, 2); v = []
for k in ('SqExp', 'Ma5f2'):
    o = gp(2, kern=k); o.set_data(x, f, np.zeros(3), g, g * 0); o.init_optz_surr(1); o.set_hpara('set', 0, hp_vals=hp(o, [1., 2.]))
    v.append(float(np.ravel(o.return_optz_val(np.array([.1, .2])))[0]))
o = gp(2, kern='Ma5f2'); o.set_data(x, f, np.zeros(3), g, g * 0); h = hp(o, 10 ** np.array([.1, .2]))
with quiet(): close(v[1], -o.calc_lkd_all(h, calc_cond=False, calc_grad=False)[0].ln_lkd, 1e-9)
'''
