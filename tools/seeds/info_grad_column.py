PROPERTY = 'C23'
EDITS = [('gpgradpy/src/base/GpInfo.py', '            data[:,idx]   = self.hp_var_fgrad_all', '            data[:,idx]   = self.hp_var_fval_all if self.b_optz_var_fval else self.hp_var_fgrad_all')]
NEEDS = 'the noise of the values and that of the gradients are both unknown'
BREAKS = 'The column of the noise of the gradients shows that of the values.'
DEMO = '''
o = gp(2); x, f, g = data(3, 2); o.set_data(x, f, None, g, None); o.init_optz_surr(1); o.store_new_para_surr(0, hp(o, [1., 2.], vf=.25, vg=.5))
with quiet(): t = o.info_surr_summary()
r = [c.strip() for c in t.strip().splitlines()[-1].split('|') if c.strip()]
need(.5 in [float(c) for c in r], r)
'''
