PROPERTY = 'C26'
EDITS = [('gpgradpy/plt/plt_surr_1d.py', '        hp_mu_vec[i]  = lkd_info.hp_beta[0]', '        hp_mu_vec[i]  = np.mean(GP._fval_in)')]
NEEDS = 'lengthscales for which the trend differs from the mean of the values'
BREAKS = 'The surrogates of the figures do not have the trend that maximizes the likelihood.'
DEMO = '''
import matplotlib, ast, shutil; matplotlib.use('Agg')
import matplotlib.pyplot as plt
def script(f, **consts):
    # runs a script with other constants in an empty folder
    p = os.path.join(os.getcwd(), 'gpgradpy', 'plt', f); m = ast.parse(open(p).read())
    for s in m.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id in consts: s.value = ast.parse(repr(consts.pop(s.targets[0].id)), mode='eval').body
    here = os.getcwd(); t = tempfile.mkdtemp(); plt.show = lambda *a: None; sys.path.insert(0, os.path.dirname(p))
    try:
        os.chdir(t)
        with quiet(): exec(compile(ast.fix_missing_locations(m), p, 'exec'), dict(__name__='__main__', __file__=p))
    finally: os.chdir(here); shutil.rmtree(t)

from gpgradpy.src import GaussianProcess as T
seen = []; ev = T.eval_model
def f(self, x, *a, **k):
    seen.append((self.calc_lkd_all(self.hp_vals)[0].hp_beta[0], self.hp_vals.beta[0])); return ev(self, x, *a, **k)
T.eval_model = f
script('plt_surr_1d.py', use_grad=True, save_fig=False)
need(len(seen) > 0)
for a, b in seen: close(a, b, 1e-6)
'''
