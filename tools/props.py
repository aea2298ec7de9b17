"""The properties; `python3 tools/props.py` writes properties.jsonl and MANIFEST.json from them."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'gpgradpy/src/'
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), note='', tech=''):
    assert len(title) <= 80, title
    at = lambda f: 'gpgradpy/results/PltOptzResults.py' if f == 'RES' else 'gpgradpy/' + f if f[:4] in ('plt/', 'resu') else S + f
    for f in files: assert os.path.exists('/repo/' + at(f)), f
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=[at(f) for f in files], state=[dict(name=a, meaning=b, where=at(c)) for a, b, c in state],
                               mechanism=[dict(name=a, where=at(b)) for a, b in mech], observe_at=list(observe), hook_needed=None),
                  _note=note, _tech=tech))

prop('C01', 'Kernel matrices are exact derivatives of the kernel',
     'For every kernel, dimension, pair of point sets (equal, coincident or rectangular), positive hyperparameters and selection of points with gradients, '
     'every entry of the plain and of the gradient-enhanced kernel matrix is the corresponding derivative of the base kernel function. '
     'The matrices for second derivatives and for the sensitivities to lengthscales and kernel shape are the derivatives of those entries, '
     'and the diagonal preconditioner, its inverse and its sensitivities belong to the diagonal of the gradient-enhanced matrix.',
     ['inputs', 'configurations'], 'all kernels, dimensions, point sets, masks, lengthscales and shape parameters',
     'The unit tests compare a few matrices with finite differences at one random point set without masks, at a loose tolerance.',
     ['kernel/KernelSqExp.py', 'kernel/KernelMatern5f2.py', 'kernel/KernelRatQuad.py', 'base/CommonFun.py'],
     [('closed-form kernel entries', 'kernel/KernelSqExp.py'), ('closed-form kernel entries', 'kernel/KernelMatern5f2.py'), ('closed-form kernel entries', 'kernel/KernelRatQuad.py')],
     observe=['kernel-matrix functions of GaussianProcess'],
     note='Kernel formulas in TLA+ are checked by TLC to be the derivatives (nested high-precision difference quotients) of the kernel for all kernels/orders/coordinates of the model; the code is compared with them entry by entry at 1e-9 on random cases, with and without JIT compilation. Trusts the 70-digit arithmetic overrides.')

prop('C02', 'Gradients at some points only: the full model with the other rows dropped',
     'A surrogate given gradients at a subset of its evaluation points is the Bayesian model of exactly those data: covariance matrix, likelihood, '
     'predictions, their derivatives and variances equal those of the full gradient-enhanced model after deleting the rows and columns of the missing gradients. '
     'Selecting every point is the same as giving no selection, and the order of points and selection entries is immaterial.',
     ['inputs', 'configurations'], 'all selections of points, kernels, methods and noise settings',
     'No test ever sets up a surrogate with a selection of gradients.',
     ['kernel/Kernel.py', 'kernel/KernelSqExp.py', 'GaussianProcess.py', 'eval/GpEvalModel.py', 'base/CommonFun.py', 'optz/GpHparaGrad.py'],
     [('boolean selection of gradient points threaded through kernels, noise and preconditioner', 'GaussianProcess.py')],
     observe=['set_data with a selection', 'likelihood', 'model evaluation'],
     note='TLA+ model of the masked Gaussian process evaluated by TLC on recorded runs, and equality of runs (all points selected = no selection; permuted points).')

prop('C03', 'Condition number stays below its target and the factor is of the covariance',
     'With the preconditioning method (and for a gradient-free model) the factorized matrix has a condition number of at most the configured maximum for all data, '
     'lengthscales and noise, and the factorization always succeeds. '
     'For every method the covariance matrix that is factorized is the kernel matrix times the variance plus noise plus the documented nugget, '
     'the factor multiplies back to it, and the condition number that is reported is that of the matrix the method conditions.',
     ['inputs', 'configurations'], 'all point sets (also nearly coincident points), lengthscales over many orders of magnitude, noise levels, kernels, methods',
     'Tests sample a few well-behaved matrices; the bound has to hold for the worst lengthscale and point set that an optimizer visits.',
     ['base/GpWellCond.py', 'kernel/Kernel.py', 'optz/GpHparaCon.py'],
     [('nugget from the largest possible eigenvalue', 'base/GpWellCond.py'), ('assembly and factorization', 'kernel/Kernel.py')],
     observe=['assembled matrices, Cholesky factor, condition number'],
     note='Assembly, nugget, factor and condition number are recomputed in 70-digit arithmetic by TLC from the TLA+ model for recorded cases; the bound itself is checked on adversarial lengthscales (1e-12..1e12) and nearly coincident points.')

prop('C04', 'Predictions always reflect the latest data and hyperparameters',
     'Whatever sequence of data updates, hyperparameter selections, optimizations and evaluations came before, a prediction equals that of a freshly built surrogate '
     'with the same settings, the current data (and their scaling) and the hyperparameters most recently set up. '
     'Data arrays that the caller changes after handing them over, and arrays that it received as results of evaluations, do not influence later predictions.',
     ['histories'], 'all sequences of API calls up to the explored depth',
     'Tests build one object, set data once and evaluate once.',
     ['GaussianProcess.py', 'eval/GpEvalModel.py', 'base/GpHpara.py', 'base/Rescaling.py'],
     [('set_data resets the model, setup stores the factor and weights', 'eval/GpEvalModel.py')],
     observe=['eval_model, eval_model_var after any history'],
     note='TLA+ life-cycle model explored exhaustively by TLC; a transition tour of its state graph and random histories are executed by the code, and TLC validates which snapshot (data, hyperparameters) each result belongs to against results of fresh objects.')

prop('C05', 'A stale or missing model is refused, never evaluated',
     'An evaluation is refused with an error when the model was never set up, when data were replaced or rescaled since it was set up, or when the hyperparameters changed by value since. '
     'It is not refused when nothing relevant changed, and a refused or failed call (a failed factorization as well) leaves the object usable: after setting up again the predictions are right.',
     ['histories'], 'all sequences of API calls up to the explored depth',
     'No test evaluates a model after changing data or hyperparameters.',
     ['eval/GpEvalModel.py', 'GaussianProcess.py'], [('guard that compares hyperparameters with those of the setup', 'eval/GpEvalModel.py')],
     observe=['outcome of eval_model, eval_model_var'],
     note='As C04: the life-cycle model says in which states evaluation must be refused or served; both directions are validated.')

prop('C06', 'Stored hyperparameter history is complete, isolated and recalled exactly',
     'The hyperparameters, condition number, nugget, scaling and statistics stored for an iteration are exactly those that were in force (or were given) when they were stored, entry by entry, and entries of other iterations never change. '
     'Recalling a stored iteration restores its hyperparameters (and scaling) and reproduces the predictions made with them on the same data. '
     'Later modification of hyperparameters that the caller handed over, later data, or a later optimization of another iteration never change what was stored.',
     ['histories'], 'all sequences of store, recall, optimize and data updates',
     'Tests never store more than once nor recall.',
     ['base/GpParaDef.py', 'base/GpHpara.py', 'GaussianProcess.py'], [('per-iteration arrays of the surrogate history', 'base/GpParaDef.py')],
     observe=['stored arrays, set_hpara with a stored iteration'],
     note='TLA+ model of the history store, exhaustive in TLC, and conformance of recorded histories.')

prop('C07', 'Saved surrogate data survive a round trip and an interrupted save',
     'Saving the surrogate history and loading it in another object gives back the same history, from which work continues as if uninterrupted. '
     'Saving again keeps the previous file as backup, and at whatever point a save is interrupted, a complete earlier or the new version remains on disk under the main or the backup name. '
     'Finishing trims the history to the iterations done without changing them.',
     ['crash_points', 'histories'], 'every crash point of a save (each file-system operation and partial write), all histories up to the explored depth',
     'No test saves, loads or interrupts.',
     ['base/GpParaDef.py'], [('write, backup and rename of the npz file', 'base/GpParaDef.py')],
     observe=['files in the save directory', 'state after loading'],
     note='TLA+ model of the save protocol with a crash at every file-system step (exhaustive); every crash point is injected in the code (in a scratch directory) and the surviving files are judged.')

prop('C08', 'The vector of optimized hyperparameters encodes and decodes faithfully',
     'The hyperparameters that are optimized are exactly those the settings, noise knowledge and kernel call for; all others keep their fixed, default or closed-form values. '
     'Encoding hyperparameters as the optimization vector and decoding it again is the identity, with logarithms on exactly the entries so configured and each entry at its documented position. '
     'A set of custom hyperparameters is applied and stored with exactly the given values.',
     ['configurations', 'inputs'], 'all combinations of kernel, noise knowledge, log settings, fixed hyperparameters and dimension',
     'Tests use the default combination only.',
     ['base/GpHpara.py', 'optz/GpHparaOptz.py'], [('index bookkeeping of the optimization vector', 'base/GpHpara.py')],
     observe=['hyperparameter records decoded from vectors'],
     note='The layout is a TLA+ operator over the finite space of configurations, enumerated completely by TLC with its invariants (partition, round trip), and the code is compared on every configuration.')

prop('C09', 'Starting points and bounds of the optimization are admissible',
     'The bounds for each optimized hyperparameter lie within its configured range, lower never exceeds upper, and after the first iteration they are the configured factors around the median of the recent history (clipped to the range). '
     'All starting points lie within the box for the sampling, which lies within the bounds, there are as many as configured, each stratum of the sampling is used once, the selected starts are the best admissible ones of the sample, '
     'and for a given history they are reproducible.',
     ['configurations', 'histories'], 'all configurations, histories of optima and random states',
     'Tests run the default settings for one iteration.',
     ['optz/GpHparaX0.py', 'optz/GpHparaCon.py'], [('median-centred box and Latin hypercube', 'optz/GpHparaX0.py')],
     observe=['bounds, start points'], note='TLA+ specification of ranges, boxes and stratification; recorded bounds and samples are validated by TLC.')

prop('C10', 'The best feasible result of all starts is selected',
     'Of the results of the individual optimizations, whatever their order, convergence flags or failures, the one with the highest likelihood among those that satisfy the condition-number limit is selected; '
     'if none satisfies it the documented fallback is used. Failed factorizations never win, and the reported statistics belong to the selected result.',
     ['fault_sequences', 'inputs'], 'all orders and outcomes (value, feasibility, failure) of the starts',
     'Optimizations in tests succeed from every start.',
     ['optz/OptzLkd.py'], [('selection among starts', 'optz/OptzLkd.py')], observe=['selected hyperparameters for scripted optimizer results'],
     note='TLA+ model of the selection enumerated by TLC over all outcome vectors; each is replayed in the code with a scripted optimizer.')

prop('C11', 'Objective callbacks are pure functions of the hyperparameter vector',
     'The objective, its gradient, the constraint and its gradient returned to the optimizer at a vector depend on that vector only: '
     'any order and repetition of calls, and any sequence of vectors before, gives the same values, and they are those of the likelihood (negated) and condition number at exactly that vector. '
     'Replacing the data between calls is reflected at once.',
     ['histories', 'schedules'], 'all interleavings of the four callbacks over several vectors up to the explored depth',
     'Tests call each callback at one vector.',
     ['optz/OptzLkd.py', 'base/GpHpara.py', 'optz/CalcLkd.py'], [('cache of the last evaluated vector', 'optz/OptzLkd.py')],
     observe=['callback values'], note='TLA+ model of the cache, exhaustive; its behaviours are replayed in the code.')

prop('C12', 'Likelihood and closed-form hyperparameters are those of the model',
     'The value that is maximized is the marginal log-likelihood of the data under the model (with the documented variance penalty when enabled), '
     'for known and unknown noise, with or without gradients, for each kernel and conditioning method. '
     'The constant mean is the generalized least-squares one and, without noise, the variance is the one that maximizes the likelihood; direct and adjoint evaluation agree.',
     ['inputs', 'configurations'], 'all data, noise settings, kernels, methods and hyperparameters',
     'Tests check gradients of the value against the value itself, never the value.',
     ['optz/CalcLkd.py', 'eval/GpMeanFun.py', 'kernel/Kernel.py'], [('log-likelihood from the Cholesky factor', 'optz/CalcLkd.py')],
     observe=['likelihood, mean and variance'], note='TLA+ model of the likelihood evaluated at 70 digits by TLC on recorded calls.')

prop('C13', 'Gradients of likelihood and condition number are exact',
     'At every vector of optimized hyperparameters the gradients handed to the optimizer are the derivatives of the likelihood and of the condition number with respect to exactly that vector, '
     'including logarithmic coordinates, noise and kernel-shape entries, for direct and adjoint evaluation. '
     'Where the factorization fails the returned values steer away: finite, and gradient consistent with the value.',
     ['inputs', 'configurations'], 'all vectors, kernels, methods, noise settings and log settings',
     'Tests check a few configurations at one point with loose finite differences.',
     ['optz/CalcLkd.py', 'optz/GpHparaGrad.py', 'optz/GpHparaCon.py', 'optz/OptzLkd.py'], [('adjoint and direct sensitivities', 'optz/CalcLkd.py')],
     observe=['gradients'], note='Derivatives of the TLA+ model by high-precision difference quotients, evaluated by TLC on recorded calls.')

prop('C14', 'Scaling and unscaling of data are consistent after any sequence of calls',
     'At any time the scaled data are the affine image of the data given, with one shift and scale for locations and one for values, gradients scaled by the ratio, and standard deviations likewise. '
     'Mapping points, values, gradients, Hessians and constraints to scaled coordinates and back is the identity, '
     'and changing the scaling or the data in any order never mixes old with new factors.',
     ['histories', 'inputs'], 'all sequences of scale changes and data updates',
     'Tests check one scaling set once.',
     ['base/Rescaling.py'], [('data scaling object', 'base/Rescaling.py')], observe=['scaled and unscaled quantities'],
     note='TLA+ state machine of the scaling object, exhaustive over exact rational data, with a transition tour replayed in the code, and random traces validated.')

prop('C15', 'Surrogates with internal rescaling predict in the original units',
     'With every conditioning method that rescales the data internally, predictions, gradients, Hessians and uncertainties refer to the original coordinates and units: '
     'they are those of the documented model for these data, and shifting or scaling the locations or values given changes the predictions accordingly. '
     'The mean for data, lengthscales and factorization that are given is that of these, whatever the surrogate holds.',
     ['inputs', 'configurations'], 'all data, kernels, methods, shifts and scales',
     'Tests evaluate without rescaling or only compare gradients with differences of the same code.',
     ['eval/GpEvalModel.py', 'base/Rescaling.py', 'base/GpWellCond.py'], [('unscaling of model outputs', 'eval/GpEvalModel.py')],
     observe=['eval_model'], note='TLA+ model in original units evaluated by TLC on recorded evaluations; metamorphic shift and scale relations.')

prop('C16', 'Reported derivatives of mean and uncertainty are exact',
     'The gradients and Hessians of the mean and of the standard deviation, and the gradient of the variance, are the derivatives of the predicted mean and deviation at every point where they exist, '
     'for each kernel, method, mask and noise setting. '
     'The helper that checks derivatives returns the difference quotients of the given function at the given point.',
     ['inputs', 'configurations'], 'all evaluation points, kernels, methods, data and hyperparameters',
     'Tests use loose finite differences at a few points without mask or rescaling.',
     ['eval/GpEvalModel.py', 'kernel/KernelSqExp.py'], [('analytic derivatives', 'eval/GpEvalModel.py')], observe=['eval_model with gradients and Hessians'],
     note='High-precision derivatives of the TLA+ predictions.')

prop('C17', 'Predictions do not depend on batching, order or requested extras',
     'The prediction at a point is the same whether it is evaluated alone or in a batch, in whatever order, with or without gradients and Hessians requested, and with or without squeezing of the result. '
     'Permuting or duplicating the evaluation points permutes or duplicates the results; evaluation changes nothing.',
     ['inputs', 'histories'], 'all batches, permutations and output options',
     'Tests evaluate one batch.',
     ['eval/GpEvalModel.py'], [('batched evaluation', 'eval/GpEvalModel.py')], observe=['eval_model'],
     note='Relations between recorded evaluations judged by TLC, results anchored to the TLA+ prediction.')

prop('C18', 'Uncertainty is nonnegative, at most the prior, and vanishes at exact data',
     'The predicted variance is never negative nor above the prior variance, and more data with the same hyperparameters never increase it. '
     'Without noise the mean and its gradient reproduce the data (up to the nugget) and the variance at them is negligible; far from the data the prediction returns to the mean function and prior variance.',
     ['inputs', 'configurations'], 'all data, hyperparameters and evaluation points',
     'Tests do not look at variances away from one setting.',
     ['eval/GpEvalModel.py', 'kernel/Kernel.py'], [('posterior variance', 'eval/GpEvalModel.py')], observe=['eval_model'],
     note='Bounds and relations judged by TLC with tolerances from the condition number of the TLA+ model.')

prop('C19', 'Noise on values and gradients enters as specified',
     'Known standard deviations enter the model squared, on the data they belong to and nowhere else; unknown ones are replaced by the optimized noise variances, separately for values and gradients. '
     'Noise-free data are recognized as such and only then is the variance obtained in closed form.',
     ['inputs', 'configurations'], 'all combinations of known, unknown, zero and mixed noise, masks and rescaling',
     'Tests use zero noise throughout.',
     ['kernel/Kernel.py', 'GaussianProcess.py', 'optz/CalcLkd.py'], [('noise vector', 'kernel/Kernel.py')], observe=['noise vector, likelihood, predictions'],
     note='TLA+ model of the noise vector and of the likelihood/predictions with it, evaluated by TLC on recorded runs.')

prop('C20', 'Inconsistent data are rejected atomically; consistent data accepted',
     'Data whose shapes, selection, noise or gradients are inconsistent with each other or the surrogate are rejected with an error, and the surrogate is then exactly as before the call. '
     'Every consistent combination is accepted.',
     ['inputs', 'histories'], 'all combinations of argument shapes up to the explored size',
     'Tests only pass valid data.',
     ['GaussianProcess.py'], [('validation in set_data', 'GaussianProcess.py')], observe=['outcome of set_data, state afterwards'],
     note='The validity predicate is a TLA+ operator; TLC enumerates the argument space and the code is run on all of it.')

prop('C21', 'Result histories report the cumulative best',
     'The plotting data of optimization runs report at every iteration the best value so far, for every history of values, the plotted lines show exactly these, '
     'and loading saved runs yields exactly the recorded histories whatever their lengths.',
     ['inputs', 'histories'], 'all histories (ties, infeasible prefixes, missing values)',
     'No test covers result processing.',
     ['RES'], [('running best', 'RES')], observe=['best_at_all_iter, load_npz_data'],
     note='TLA+ model of the running best enumerated by TLC over all short histories; code compared on all of them.')

prop('C22', 'Nuggets and required distances follow from the bound they guarantee',
     'The nugget that each conditioning method uses is the documented function of the number of points, dimension and maximal condition number, '
     'its sensitivity is the derivative, and the required distances are the documented functions of these.',
     ['inputs', 'configurations'], 'all numbers of points, dimensions and targets',
     'Tests evaluate no nugget.',
     ['base/GpWellCond.py'], [('nugget formulas', 'base/GpWellCond.py')], observe=['nugget and required distance'],
     note='Formulas in TLA+, evaluated by TLC; TLC also checks that they imply the bound.')

prop('C23', 'Printed tables report the stored history',
     'The information tables about data, hyperparameters and optimization report, for each iteration and each column, the value that was stored for it, in order, for every history and configuration.',
     ['histories', 'configurations'], 'all histories and configurations up to the explored size',
     'Tests do not read the tables.',
     ['base/GpInfo.py'], [('tables', 'base/GpInfo.py')], observe=['tables'], note='TLA+ relation between history and table validated on recorded tables.')

prop('C24', 'The outcome of hyperparameter optimization is admissible and consistent',
     'After a numerical optimization (with the default optimizer) the hyperparameters lie in their bounds, are no worse than any feasible starting point, the mean and variance are the closed-form ones for them, '
     'and the condition number recorded is that of exactly these hyperparameters and data. '
     'Methods that rescale data end with a scaling and hyperparameters that belong together, their lengthscales in the original coordinates being those that were bounded. '
     'With no more evaluations than configured for it the initial hyperparameters are used.',
     ['configurations', 'inputs', 'histories'], 'all kernels, methods, noise settings and data',
     'Tests run one optimization and look at nothing but completion.',
     ['optz/GpHparaOptz.py', 'optz/OptzLkd.py', 'base/GpWellCond.py', 'optz/GpHparaCon.py'], [('optimization driver', 'optz/GpHparaOptz.py')],
     observe=['hyperparameters after set_hpara by optimization'], note='Recorded optimizations judged by the TLA+ model of likelihood, bounds and scaling.')

prop('C25', 'Surrogates are independent of each other and of the rest of the process',
     'What a surrogate returns depends only on the calls made on it: several surrogates used in any interleaving behave as each does alone in a new process, '
     'a new surrogate starts from the defaults whatever others did before, and repeating the same calls gives the same results. '
     'No call changes state that the process shares: random number generators, floating-point error handling, print options, working directory, environment, and files outside the folder of the surrogate.',
     ['histories', 'schedules'], 'all interleavings of calls on several surrogates up to the explored depth',
     'Every test has one surrogate.',
     ['GaussianProcess.py', 'base/GpParaDef.py', 'optz/GpHparaOptz.py', 'optz/GpHparaX0.py', 'base/GpHpara.py'],
     [('settings as attributes of the class, overridden by the instance', 'GaussianProcess.py'), ('state of the evaluated model', 'GaussianProcess.py')],
     observe=['results of calls on interleaved surrogates, process state'],
     note='TLA+ model of two surrogates with process-wide state explored by TLC; its transition tour and random interleavings are executed by the code, and TLC compares each result with that of the same calls on the surrogate alone.')

prop('C26', 'Figures show the data, the surrogate and the likelihood they are about',
     'The plotting helpers draw, for all data and options, exactly the curves, bands, markers and minima that they are asked for at the values they are given. '
     'The example scripts run to completion for every kernel and documented option. Their surrogates get values and gradients of the function in question, '
     'and their figures show, on the axes and under the legends that name them, the mean and deviation, likelihood, condition number, nugget and correlation that the model defines. '
     'Figures that are saved are those that were drawn.',
     ['inputs', 'configurations'], 'all data for the helpers; kernels, use of gradients, methods and sizes for the scripts',
     'No test runs a script or looks at a figure.',
     ['plt/SurrPlt.py', 'plt/plt_surr_1d.py', 'plt/plt_acq.py', 'plt/plt_cond.py', 'plt/plt_nugget_1d.py', 'plt/plt_kern_corr.py', 'results/optz_paper_precon.py'],
     [('drawing of surrogates and acquisition functions', 'plt/SurrPlt.py'), ('maps over two lengthscales', 'plt/plt_cond.py')],
     observe=['lines, areas and contour maps of the figures, calls of the surrogates'],
     note='What a figure has to show is defined in TLA+ (Figures.tla, on top of the model of the process); contents of the figures that the real scripts draw are judged by TLC. Saving and showing are stand-ins; pixels are not looked at.')

DONE = [p['id'] for p in P if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py'))]
TECH = 'TLA+ specification checked with TLC; conformance by trace validation with TLC'
with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for p in P: fh.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
M = dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py',
         checks=[dict(property=p['id'], quick_cmd=f'/opt/venv/bin/python checks/run.py {p["id"]} quick',
                      thorough_cmd=f'/opt/venv/bin/python checks/run.py {p["id"]} thorough',
                      technique=p['_tech'] or TECH, level='model_checking', level_note=p['_note']) for p in P if p['id'] in DONE],
         not_applicable=[dict(property=p['id'], reason='check under construction') for p in P if p['id'] not in DONE],
         notes='Specifications in spec/, trace validation in spec/*Trace.tla, drivers in checks/. No hooks in /repo are needed.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh: json.dump(M, fh, indent=1)
