PROPERTY = 'C07'
EDITS = [('gpgradpy/src/base/GpParaDef.py', "        self.hp_var_fgrad_all[:idx]       = all_data[name + 'hp_var_fgrad_all']", "        self.hp_var_fgrad_all[:idx]       = all_data[name + 'hp_var_fval_all']")]
NEEDS = 'gradients with unknown noise, a history that is saved and loaded into a new object'
BREAKS = 'The variance of the noise of the gradients that is loaded is not the one that was saved.'
DEMO = '''
import shutil
t = tempfile.mkdtemp()
try:
    def new(): return GaussianProcess(2, True, 'SqExp', 'base', path_data_surr=os.path.join(t, 's'))
    o = new(); o.init_optz_surr(3); x, f, g = data(3, 2); o.set_data(x, f, None, g, None)
    for i in range(3): o.store_new_para_surr(i, hp(o, [1. + i, 2.], vf=.1 + i, vg=.7 + i))
    o.export_data_surr()
    q = new(); q.init_optz_surr(3); q.load_data_surr()
    close(q.hp_var_fgrad_all, o.hp_var_fgrad_all); close(q.hp_var_fval_all, o.hp_var_fval_all)
finally: shutil.rmtree(t)
'''
