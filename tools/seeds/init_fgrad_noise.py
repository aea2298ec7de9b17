PROPERTY = 'C08'
EDITS = [('gpgradpy/src/optz/GpHparaOptz.py', '        if (self.use_grad is False) or self.known_eps_fgrad:', '        if (self.use_grad is False) or self.known_eps_fval:')]
NEEDS = 'the noise of the values is known and that of the gradients not, or the other way around'
BREAKS = 'The initial hyperparameters have no variance for noise that is not known.'
DEMO = '''
x, f, g = data(3, 2); o = gp(2, hp_var_fgrad_init=.3); o.set_data(x, f, np.zeros(3), g, None)
h = o.get_init_hp_vals(); need(h.var_fgrad == .3 and h.var_fval is None)
o.set_data(x, f, None, g, g * 0); need(o.get_init_hp_vals().var_fgrad is None)
'''
