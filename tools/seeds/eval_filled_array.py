PROPERTY = 'C17'
EDITS = [('gpgradpy/src/eval/GpEvalModel.py', "        nx = x2model.shape[0]\n        \n        if squeeze_nx:\n            assert nx == 1, 'If squeeze_nx is True, then x_acq must only have one point'\n", "        nx = x2model.shape[0]\n        \n        if squeeze_nx:\n            assert nx == 1, 'If squeeze_nx is True, then x_acq must only have one point'\n        \n        b_same_x = getattr(self, '_x_last', None) is x2model_in\n", 1), ('gpgradpy/src/eval/GpEvalModel.py', '        Rtensor = self.calc_Rtensor(x_eval_scl, x2model, 1)\n        if self.use_grad', '        if b_same_x and self._R_last[0] is x_eval_scl:\n            Rtensor = self._R_last[1]\n        else:\n            Rtensor = self.calc_Rtensor(x_eval_scl, x2model, 1)\n        self._x_last, self._R_last = x2model_in, (x_eval_scl, Rtensor)\n        if self.use_grad', 1)]
NEEDS = 'the same array, filled with other points, is evaluated again'
BREAKS = 'The surrogate is that at the previous points.'
DEMO = '''
x, f, g = data(4, 2); o = gp(2); o.set_data(x, f, np.zeros(4), g, g * 0); o.set_hpara('set', 0, hp(o, [1., 2.]))
p = np.array([[.1, .2], [.5, -.4]]); o.eval_model(p); p[...] = [[.7, .3], [-.2, .6]]
a = o.eval_model(p, calc_grad=True); b = o.eval_model(p.copy(), calc_grad=True)
for u, v in zip(a[:4], b[:4]): close(u, v)
'''
