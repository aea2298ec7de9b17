PROPERTY = 'C23'
EDITS = [('gpgradpy/src/base/GpInfo.py', '            theta_median       = np.median(self.hp_theta_all, axis=1)', '            theta_median       = np.sort(self.hp_theta_all, axis=1)[:, self.dim // 2]')]
NEEDS = 'an even number of dimensions greater than three'
BREAKS = 'The table does not show the median of theta.'
DEMO = '''
o = gp(4); o.init_optz_surr(1); x, f, g = data(3, 4); o.set_data(x, f, np.zeros(3), g, g * 0); o.store_new_para_surr(0, hp(o, [1., 2., 4., 8.]))
with quiet(): t = o.info_surr_summary()
r = [c.strip() for c in t.strip().splitlines()[-1].split('|') if c.strip()]
close(float(r[-1]), 3.)
'''
