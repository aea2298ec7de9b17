PROPERTY = 'C09'
EDITS = [('gpgradpy/src/optz/GpHparaX0.py', '        idx_min    = int(np.max((0, i_optz - self.hp_median_n_idx)))', '        idx_min    = int(np.max((0, i_optz - self.hp_median_n_idx - (i_optz > 2 * self.hp_median_n_idx))))')]
NEEDS = 'more than ten iterations'
BREAKS = 'The bounds are around the median of six iterations and not of the configured number.'
DEMO = '''
x, f, g = data(3, 2); o = gp(2, hp_median_n_idx=1); o.init_optz_surr(5); o.set_data(x, f, np.zeros(3), g, g * 0)
for i in range(5): o.store_new_para_surr(i, hp(o, [10. ** i, 1.]))
b = o.get_hp_x0_lhs_median(4, o.hp_info_optz_lkd, 4)[1]
close(b.ub[0], 3 + 5)
'''
