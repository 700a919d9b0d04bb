#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one property per line)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['src/reor/' + f for f in files], state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))


prop('C01', 'Projecting a vector onto the simplex gives its Euclidean nearest point',
     'For every finite real vector of length at least one, simplex projection returns the unique point of the '
     'probability simplex closest to it: non-negative, summing to one, and the input shifted by a common threshold and '
     'clipped at zero. Projecting a projected point changes nothing, and an `out` array (including the input itself) '
     'receives the same result.',
     ['inputs'], 'all finite vectors: any length, ties, sign pattern, magnitude, order of entries; with and without out=',
     'tests project a few random vectors and hand-made cases; ties, length one, all-negative, widely scaled or permuted '
     'vectors are not enumerated', ['simplex_projection.py'],
     [('threshold search over sorted entries', 'simplex_projection.simplex_project_vector')],
     ['reor.simplex_projection.simplex_project_vector'])

prop('C02', 'Row and column projection works slice by slice, in place, nothing else touched',
     'Projecting the rows (or columns) of a matrix replaces each row (column), in the caller\'s own memory, by its '
     'projection onto the simplex, independently of all other rows (columns). This holds for every shape and memory '
     'layout (row-major, column-major, strided or reversed views), and memory outside the given view is never written.',
     ['inputs'], 'all matrix shapes, value patterns and memory layouts',
     'tests use contiguous random matrices of a few sizes', ['simplex_projection.py'],
     [('per-slice in-place call', 'simplex_projection.simplex_project_rows / simplex_project_columns')],
     ['reor.simplex_projection.simplex_project_rows', 'reor.simplex_projection.simplex_project_columns'])

prop('C03', 'FurthestSum picks distinct admissible points greedily and refuses the impossible',
     'FurthestSum returns exactly the requested number of pairwise distinct, non-excluded sample indices: the start '
     'point first, then each time a point whose summed dissimilarity to the points already selected is largest. Each '
     'extra step then removes the oldest not-yet-refreshed selection (cycling through the slots) and refills that slot '
     'with a point of largest summed dissimilarity to the remaining selection. Requests that cannot be met (non-square '
     'matrix, start index out of bounds or excluded, too few points) are refused with ValueError.',
     ['inputs', 'configurations'], 'all symmetric dissimilarity matrices, component counts, start points, exclusion '
     'lists and numbers of extra steps',
     'tests check three-point cases and hull membership on random points; ties, exclusions combined with extra steps '
     'and several cycles of extra steps are not covered', ['furthest_sum.py'],
     [('candidate queue with running sums', 'furthest_sum._furthest_sum_impl'),
      ('bounds and exclusion checks', 'furthest_sum._furthest_sum_impl')],
     ['reor.furthest_sum.furthest_sum'])

prop('C04', 'Line-search steps always shrink and spectral step lengths stay within bounds',
     'Whatever function values the line search observes, each next trial step is positive and strictly smaller than the '
     'current one: the minimiser of the quadratic interpolant when it lies between the lower safeguard and the upper '
     'safeguard fraction of the current step, otherwise half the current step, so any backtracking sequence falls below '
     'the step tolerance after boundedly many trials. The spectral step length always lies within the configured '
     'minimum and maximum: the secant ratio clipped to them, or the maximum when curvature is not positive.',
     ['inputs', 'histories'], 'all step lengths, negative directional derivatives, function values, safeguards, secant pairs, '
     'and all sequences of line-search answers',
     'the repository has no test of these rules at all', ['spg.py'],
     [('safeguarded quadratic interpolation', 'spg.get_next_spg_step_length'),
      ('clipped spectral step', 'spg.get_next_spg_alpha')],
     ['reor.spg.get_next_spg_step_length', 'reor.spg.get_next_spg_alpha'])

prop('C05', 'Random stochastic matrices are stochastic along the stated axis and reproducible',
     'Left (right) stochastic random matrices of every shape have non-negative entries and columns (rows) summing to '
     'one. Equal seeds give equal matrices, a generator instance is consumed so that successive draws differ, and the '
     'global random state is not consumed when a seed or generator is supplied.',
     ['inputs', 'configurations'], 'all shapes, seeds and kinds of random_state',
     'only used as a helper in tests, never checked on its own', ['_random_matrix.py'],
     [('normalisation along axis', '_random_matrix._uniform_stochastic_matrix')],
     ['reor._random_matrix.left_stochastic_matrix', 'reor._random_matrix.right_stochastic_matrix'])

prop('C06', 'Archetypal analysis always returns stochastic dictionaries and weights',
     'For every kernel, component count, initialisation and iteration limit, fitting (kernel) archetypal analysis from '
     'a valid start leaves every row of the dictionary and every row of the weights non-negative and summing to one, '
     'with shapes (components, samples) and (samples, components). This holds after every iteration, not just at '
     'convergence, and for transform as for fit.',
     ['inputs', 'histories', 'configurations'], 'all data sets, starts, component counts, relaxations and iteration counts',
     'tests check row sums after updates on one random data set per case', ['archetypal_analysis.py', 'simplex_projection.py'],
     [('projected direction plus convex step', 'KernelAA._update_weights / _update_dictionary')],
     ['KernelAA.fit_transform', 'ArchetypalAnalysis.fit_transform', 'KernelAA.transform', 'dictionary_'])

prop('C07', 'Archetypal analysis reports the true objective and never increases it',
     'The cost reported by (kernel) archetypal analysis equals the squared reconstruction error of the data by the '
     'returned weights and archetypes, evaluated in feature space through the kernel. Along the iterations of a fit '
     'the cost never increases beyond rounding error, and fitting never aborts on valid input, including with zero tolerance. Archetypal '
     'analysis of a data matrix is kernel archetypal analysis of its Gram matrix, or of the supplied kernel function.',
     ['inputs', 'histories', 'configurations'], 'all data sets, starts, component counts and iteration counts',
     'tests compare costs before and after updates on one random data set per case', ['archetypal_analysis.py'],
     [('trace form of the cost', 'KernelAA._evaluate_cost'), ('Armijo line search', 'KernelAA._dictionary_line_search / _weights_line_search')],
     ['cost_', 'KernelAA.fit', 'ArchetypalAnalysis.fit'])

prop('C08', 'Each archetypal-analysis update is a sufficient-decrease projected-gradient step',
     'Each update of the dictionary or weights moves along the line from the current factor to the simplex projection '
     'of a gradient step, by a fraction in (0, 1] satisfying the sufficient-decrease condition, taking the full step '
     'whenever that one satisfies it. A factor is left unchanged exactly when it is already first-order stationary.',
     ['inputs', 'histories'], 'all data sets and all feasible current factors',
     'tests check that one or repeated random updates reduce the cost and that one exact solution is a fixed point',
     ['archetypal_analysis.py', 'spg.py'],
     [('analytic gradients', 'KernelAA._update_weights_gradient / _update_dictionary_gradient'),
      ('nonmonotone line search', 'KernelAA._weights_line_search / _dictionary_line_search')],
     ['KernelAA.fit_transform with init=custom and max_iterations=1'])

prop('C09', 'GPNH convex coding stays feasible, with true cost that never increases',
     'Fitting GPNH convex coding from any valid start keeps every row of the weights non-negative and summing to one '
     'after every iteration. The reported cost equals the mean squared reconstruction error plus epsilon_states times '
     'the mean, over component pairs and features, of squared differences between dictionary rows (no penalty for one '
     'component), and it never increases along the iterations; fitting never aborts on valid input, including with zero tolerance.',
     ['inputs', 'histories', 'configurations'], 'all data sets, starts, component counts, penalties and iteration counts',
     'tests check random data sets of one size and a few updates', ['gpnh_convex_coding.py'],
     [('cost', 'GPNHConvexCoding._evaluate_cost'), ('line searches', 'GPNHConvexCoding._weights_line_search / _dictionary_line_search')],
     ['cost_', 'dictionary_', 'GPNHConvexCoding.fit_transform'])

prop('C10', 'Each GPNH update is a sufficient-decrease (projected) gradient step',
     'Each GPNH dictionary update moves along the negative gradient of the full penalised objective, and each weights '
     'update moves toward the simplex projection of a gradient step, by a fraction in (0, 1] satisfying the '
     'sufficient-decrease condition, the full step being taken whenever it satisfies it. A factor is left unchanged '
     'exactly when it is already first-order stationary.',
     ['inputs', 'histories'], 'all data sets, penalties and feasible current factors',
     'tests check that a few random updates reduce the cost', ['gpnh_convex_coding.py', 'spg.py'],
     [('gradients', 'GPNHConvexCoding._update_dictionary_gradient / _update_weights_gradient')],
     ['GPNHConvexCoding.fit_transform with init=custom and max_iterations=1'])

prop('C11', 'MTD convex coding keeps weights, lag weights and transition matrices stochastic',
     'Fitting MTD convex coding from any valid start keeps, after every iteration, every row of the weights, the lag '
     'weights, and every column of every transition matrix non-negative and summing to one, for every set of lags.',
     ['inputs', 'histories', 'configurations'], 'all data sets, lag sets, penalties, starts and iteration counts',
     'tests check sums on random data of one size for a few lag sets', ['mtd_convex_coding.py'],
     [('row, column and vector projections', 'MTDConvexCoding._update_weights / _update_parameters')],
     ['MTDConvexCoding.fit_transform', 'order_weights', 'transition_matrices'])

prop('C12', 'MTD convex coding reports its true objective and never increases it',
     'The reported cost equals the mean squared reconstruction error, plus the dictionary spread penalty, plus '
     'epsilon_weights times the normalised squared error of predicting each weights row after the largest lag from the '
     'lagged rows through lag weights and transition matrices. It never increases along the iterations and fitting '
     'never aborts on valid input, including with zero tolerance.',
     ['inputs', 'histories', 'configurations'], 'all data sets, lag sets (any order), penalties, starts and iteration counts',
     'tests check random data of one size', ['mtd_convex_coding.py'],
     [('lagged prediction', 'MTDConvexCoding._update_predicted_weights'), ('cost', 'MTDConvexCoding._evaluate_cost')],
     ['cost_', 'MTDConvexCoding.fit_transform'])

prop('C13', 'Each MTD update is a sufficient-decrease (projected) gradient step',
     'Each update of the dictionary, the weights or the lag parameters (lag weights jointly with transition matrices) '
     'moves from the current value toward the (projected) gradient step of the full penalised objective by a fraction in '
     '(0, 1] satisfying the sufficient-decrease condition, the full step being taken whenever it satisfies it. A block '
     'is left unchanged exactly when it is already first-order stationary.',
     ['inputs', 'histories'], 'all data sets, lag sets, penalties and feasible current factors',
     'gradient tests compare with finite differences on one random data set per lag set', ['mtd_convex_coding.py', 'spg.py'],
     [('gradients', 'MTDConvexCoding._update_weights_gradient / _update_dictionary_gradient / _update_parameters_gradient')],
     ['MTDConvexCoding.fit_transform with init=custom and max_iterations=1'])

prop('C14', 'The reduced-order model fits stochastic lag dynamics to the fitted weights',
     'Fitting the convex-coding reduced-order model gives the same weights and dictionary as plain convex coding from '
     'the same start, and lag weights and transition matrices that are stochastic (each matrix column sums to one). '
     'The one-step prediction error of the weights under these parameters never increases with more iterations and, for a single lag '
     'fitted to convergence, is no larger than that of any column-stochastic transition matrix.',
     ['inputs', 'histories', 'configurations'], 'all weight sequences, lag sets and iteration counts',
     'the repository has no test of this module', ['gpnh_convex_coding_crom.py', 'gpnh_convex_coding.py'],
     [('parameter line search', 'GPNHConvexCodingCROM._fit_parameters / _update_parameters')],
     ['GPNHConvexCodingCROM.fit_transform', 'order_weights', 'transition_matrices'])

prop('C15', 'Forecasts are the iterated lag model applied to the transformed data',
     'For the MTD and reduced-order models, predicting at horizon h gives, at each time with a full lag history, the '
     'reconstruction of the weights obtained by h successive applications of the fitted lag model, feeding predictions '
     'back as history, starting from the transformed weights up to that time. Times without a full history are '
     'undefined (NaN), and horizon zero is the plain reconstruction of the data.',
     ['inputs', 'configurations', 'histories'], 'all fitted parameters, lag sets, data lengths and horizons',
     'the repository has no test of prediction', ['mtd_convex_coding.py', 'gpnh_convex_coding_crom.py'],
     [('rolling lag window', 'MTDConvexCoding.predict / GPNHConvexCodingCROM.predict')],
     ['predict'])

prop('C16', 'Transform encodes against the frozen fitted model; inverse_transform decodes',
     'After any fit, including one from custom initial values, transforming data leaves the fitted dictionary (and lag '
     'parameters) unchanged and returns feasible weights that, at tight tolerance, minimise the model\'s objective over '
     'all feasible weights. Applying inverse_transform to weights gives exactly weights times dictionary.',
     ['inputs', 'histories', 'configurations'], 'all fitted models and data to be transformed',
     'tests never call transform or inverse_transform', ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'mtd_convex_coding.py'],
     [('fit with dictionary update off', 'transform methods'), ('matrix product', 'inverse_transform methods')],
     ['transform', 'inverse_transform', 'dictionary_'])

prop('C17', 'Iterations stop exactly at convergence or the limit, and say so',
     'Every iterative fit stops after the first iteration whose cost change is smaller in magnitude than the tolerance, or at the '
     'iteration limit, whichever comes first; the result is the state after exactly that many iterations. The reported '
     'iteration count is the number performed, the reported cost is that of the returned state, and a warning is issued '
     'when a run with positive tolerance ends unconverged at the limit.',
     ['histories', 'configurations'], 'all models, data sets, tolerances and iteration limits',
     'tests never examine iteration counts or warnings', ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'mtd_convex_coding.py', 'fembv.py'],
     [('iteration loops', '_iterate methods'), ('limit warning', '_kernel_aa / _gpnh_convex_coding / _mtd_convex_coding / _fembv_fit')],
     ['n_iter_', 'cost_', 'UserWarning'])

prop('C18', 'Initial guesses and frozen factors are honoured exactly',
     'A fit started from custom values starts exactly there, and any factor whose update is switched off is returned '
     'exactly as supplied while the others still update. FurthestSum initialisation starts the dictionary at the samples that FurthestSum '
     'selects for the feature-space distances with the requested start index, exclusions and extra steps, for '
     'duplicated samples too.',
     ['configurations', 'inputs'], 'all combinations of init modes, update switches and initialisation options',
     'tests use custom starts only through internals', ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'mtd_convex_coding.py', 'fembv.py', 'furthest_sum.py'],
     [('initialisation dispatch', '_kernel_aa / _gpnh_convex_coding / _mtd_convex_coding / _fembv_fit')],
     ['fit_transform', 'dictionary_'])

prop('C19', 'FEM-BV affiliations are feasible and respect the total-variation bound',
     'After every FEM-BV fit or transform, each sample\'s affiliations are non-negative and sum to one, and when a '
     'total-variation bound is set every component\'s affiliation sequence has total variation at most that bound '
     '(up to solver accuracy). This holds for every bound, including zero and fractional ones, and any series length.',
     ['inputs', 'configurations', 'histories'], 'all data, component counts, bounds and series lengths (after at least one affiliation update)',
     'tests compare constraint matrices entrywise for two sizes and never solve', ['fembv.py'],
     [('constraint assembly', 'FEMBV._initialize_constraints'), ('LP solve and clipping', 'FEMBV._update_weights')],
     ['Gamma', 'fit_transform', 'transform'])

prop('C20', 'FEM-BV affiliation updates are globally optimal under the bound',
     'For every matrix of sample-to-component distances, the affiliations returned by an update have weighted distance '
     'no larger (up to solver accuracy) than any other feasible affiliation sequence within the total-variation bound. '
     'Without a bound this means every sample is assigned to a nearest component.',
     ['inputs', 'configurations'], 'all distance matrices, component counts, bounds and feasible competitors',
     'tests never run the optimisation', ['fembv.py'],
     [('linear program', 'FEMBV._update_weights')], ['Gamma', 'cost_'])

prop('C21', 'FEM-BV k-means centroids are weighted means and the fit descends',
     'With given affiliations the centroids become the affiliation-weighted means of the samples; a component carrying '
     'no affiliation keeps a finite centroid. The reported cost equals the affiliation-weighted sum of squared '
     'distances to the centroids, and it never increases (up to solver accuracy) along the iterations, from random or custom starts.',
     ['inputs', 'histories', 'configurations'], 'all data sets, affiliations, bounds and iteration counts',
     'the repository has no test of this module', ['fembv_kmeans.py', 'fembv.py'],
     [('weighted means', 'FEMBVKMeans._update_parameters'), ('distances', 'FEMBVKMeans._evaluate_distance_matrix')],
     ['Theta', 'Gamma', 'cost_'])

prop('C22', 'The local VARX model is the weighted least-squares fit of its lag equation',
     'For every series, lag orders and non-negative sample weights, the fitted intercept, autoregressive and exogenous coefficients '
     'minimise the weighted squared error of predicting each sample from its own lags, lagged exogenous values and the '
     'current exogenous value, and the residuals are exactly what those coefficients leave, their covariance being the weighted '
     'cross-product over total weight minus one (unweighted: over samples minus coefficients). Noise-free full-rank series '
     'are recovered exactly, and fitting never fails on perfectly predictable or weightless data.',
     ['inputs', 'configurations'], 'all series, orders, exogenous inputs and sample weights',
     'one test compares one VAR(2) data set without exogenous inputs or weights', ['fembv_varx.py'],
     [('lagged design matrix', 'FEMBVVARXLocalLinearModel.__init__'), ('weighted least squares', 'FEMBVVARXLocalLinearModel.fit')],
     ['mu', 'A', 'B', 'B0', 'residuals', 'Sigma_u'])

prop('C23', 'FEM-BV-VARX components are affiliation-weighted VARX fits with aligned lags',
     'With given affiliations each component\'s coefficients are the affiliation-weighted least-squares fit using that '
     'component\'s own memory (coefficients beyond it are zero), all components being aligned to the same samples and '
     'to the exogenous values of the same times. The reported cost is the affiliation-weighted sum of squared one-step '
     'errors, never increasing along iterations up to solver accuracy.',
     ['inputs', 'histories', 'configurations'], 'all series, equal or differing memories, exogenous inputs, affiliations, bounds, iteration counts',
     'tests cover only a single local model', ['fembv_varx.py', 'fembv.py'],
     [('per-component presample', 'FEMBVVARX._initialize_components / _update_parameters / _evaluate_distance_matrix')],
     ['mu', 'A', 'B0', 'Gamma', 'cost_'])

prop('C24', 'FEM-BV transform assigns new data to the fitted components',
     'Transforming data with a fitted FEM-BV model returns optimal affiliations of that data to the components '
     'found by the fit, and leaves the fitted component parameters unchanged; transforming the training data '
     'repeatedly gives the same affiliations cost.',
     ['inputs', 'histories', 'configurations'], 'all fitted models and data',
     'tests never call transform', ['fembv.py', 'fembv_kmeans.py', 'fembv_varx.py'],
     [('fit with parameter updates off', 'FEMBV.transform')], ['transform', 'Theta', 'mu', 'A', 'B0'])

prop('C25', 'Cluster-Markov transition matrices are the observed transition frequencies',
     'The fitted transition matrix entry for target j and source k is the fraction of time steps leaving cluster k '
     'that lead to cluster j in the label sequence. Every column is a probability distribution, also for a cluster '
     'never left in the data, and cluster centres and labels are those of the k-means fit.',
     ['inputs', 'histories'], 'all label sequences',
     'the repository has no test of this module', ['crom.py'],
     [('transition counts', 'crom.kmeans_markov_crom')], ['transition_matrix_', 'labels_'])

prop('C26', 'Cluster-Markov predictions propagate cluster membership through the chain',
     'Predicting at horizon h returns, for each sample, the distribution of its current cluster advanced h steps by '
     'the fitted transition matrix; each row is a probability distribution, and horizon zero is the one-hot current '
     'cluster. fit_predict and fit_transform fit the model themselves and return the labels and centre distances of '
     'that same fit.',
     ['inputs', 'histories', 'configurations'], 'all fitted chains, samples, horizons and call orders',
     'the repository has no test of this module', ['crom.py'],
     [('matrix propagation', 'KMeansMarkovCROM.predict')], ['predict', 'fit_predict', 'fit_transform', 'transform'])

prop('C27', 'Piecewise VARX fits one least-squares model per regime',
     'For any assignment of samples to regimes, each regime\'s intercept, autoregressive and lagged exogenous '
     'coefficients minimise the squared prediction error over exactly the samples of that regime, and residuals are '
     'what those coefficients leave, their covariance being taken per residual degree of freedom of the regime. This '
     'holds for every order, with or without trend or exogenous input, and for '
     'one-dimensional and single-column series alike.',
     ['inputs', 'configurations'], 'all series, regime assignments, lag orders and options',
     'the repository has no test of this module', ['pwvarx.py'],
     [('per-regime regression', 'ClusterPWVARX._fit_var_model')], ['mu', 'A', 'B', 'Sigma_u', 'residuals'])

prop('C28', 'Piecewise VARX clusters on lagged state and classifies new data the same way',
     'Regimes are found by clustering each sample together with its lagged endogenous and exogenous values, and '
     'assigned by a classifier that sees only the lagged values; fit returns the classifier\'s labels. Transforming '
     'data applies that fitted classifier to identically lagged values, so transforming the training data reproduces '
     'the labels of the fit.',
     ['inputs', 'configurations', 'histories'], 'all series, lag orders, clusterers and classifiers',
     'the repository has no test of this module', ['pwvarx.py'],
     [('lag stacking', 'ClusterPWVARX._stack_predictors'), ('cluster then classify', 'ClusterPWVARX.fit_transform / transform')],
     ['fit_transform', 'transform'])

prop('C29', 'Inputs are never modified and earlier results never change under later calls',
     'No fitting, transforming or predicting call of any model changes the arrays, lists or options passed to it, and '
     'modifying those inputs after the call does not affect the fitted model. Arrays returned by earlier calls keep their values '
     'whatever is called on the model afterwards.',
     ['histories', 'inputs'], 'all models and all sequences of calls',
     'tests never check inputs or earlier results after calls', ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'gpnh_convex_coding_crom.py', 'mtd_convex_coding.py', 'fembv.py', 'fembv_kmeans.py', 'fembv_varx.py', 'pwvarx.py', 'crom.py', 'furthest_sum.py'],
     [('defensive copies on entry', 'fit methods')], ['all public calls'])

prop('C30', 'Results depend on values, not on number type or memory layout',
     'Data, kernels, weights, dictionaries and parameters holding the same values give the same results from every model '
     'whether supplied as (double or single precision) floating-point or integer arrays, in row-major, column-major, strided or read-only memory. '
     'Integer input is never truncated or rejected.',
     ['inputs', 'configurations'], 'all models and representations of the same values',
     'tests only pass contiguous float64 arrays', ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'gpnh_convex_coding_crom.py', 'mtd_convex_coding.py', 'fembv.py', 'fembv_kmeans.py', 'fembv_varx.py', 'pwvarx.py', 'crom.py', 'furthest_sum.py'],
     [('floating-point conversion on entry', 'fit methods')], ['fit_transform', 'cost_'])

prop('C31', 'Equal seeds and calls give equal results; verbosity and other models are inert',
     'For every model, two instances built with the same settings and seed (an integer or an equally seeded generator) '
     'and given the same calls produce identical results, whatever the verbosity and whatever calls on other '
     'instances are interleaved. A model given a seed neither reads nor advances the global random state.',
     ['histories', 'schedules', 'configurations'], 'all models, seeds and interleavings of calls on two instances',
     'tests fix seeds but never compare runs or interleave instances', ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'gpnh_convex_coding_crom.py', 'mtd_convex_coding.py', 'fembv.py', 'fembv_kmeans.py', 'fembv_varx.py', 'pwvarx.py', 'crom.py'],
     [('random_state handling', 'constructors'), ('per-instance workspaces', '_initialize_workspace methods')], ['fit_transform', 'transform', 'predict'])

prop('C32', 'Refitting forgets the past',
     'Fitting a model that has already been fitted, transformed or used for prediction on any other data gives the '
     'same result as fitting a fresh model with the same settings and random state on that data. Attributes that do '
     'not apply to the new fit do not survive from the old one.',
     ['histories'], 'all models and all preceding call histories',
     'tests fit each instance once', ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'gpnh_convex_coding_crom.py', 'mtd_convex_coding.py', 'fembv.py', 'fembv_kmeans.py', 'fembv_varx.py', 'pwvarx.py', 'crom.py'],
     [('workspace reset', '_initialize_workspace / _initialize_components methods')], ['fit_transform', 'fitted attributes'])

prop('C33', 'Malformed requests are refused with ValueError; documented defaults are accepted',
     'Non-positive or non-integer component counts or iteration limits, negative tolerances, lags or memories, non-square kernels, '
     'unknown init modes, custom factors that are missing or have wrong shapes or sums, and mismatched exogenous inputs or weights are '
     'refused with ValueError before anything is fitted. Every documented default, such as component count None '
     'meaning all features (samples for kernels) or init None, is accepted and behaves as documented.',
     ['inputs', 'configurations'], 'all models and all malformed or default settings',
     'tests check a few furthest-sum errors only', ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'gpnh_convex_coding_crom.py', 'mtd_convex_coding.py', 'fembv.py', 'fembv_kmeans.py', 'fembv_varx.py', 'crom.py', '_validation.py'],
     [('argument checks', 'fit methods and _validation')], ['ValueError', 'n_components_'])

prop('C34', 'Models used concurrently in different threads do not affect each other',
     'Two independent model instances fitted, transformed or used for prediction at the same time in different threads each give '
     'exactly the results they give when run alone, for every interleaving of their internal steps.',
     ['schedules'], 'all pairs of models and all thread interleavings',
     'tests are single threaded', ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'gpnh_convex_coding_crom.py', 'mtd_convex_coding.py', 'fembv_kmeans.py', 'fembv_varx.py', 'simplex_projection.py', 'furthest_sum.py', 'spg.py'],
     [('absence of module-level mutable state', 'whole package')], ['fit_transform', 'transform', 'predict'])

prop('C35', 'Archetype relaxation adjusts scale factors within the allowed range',
     'With relaxation delta greater than zero, archetypal analysis also optimises one scale factor per archetype, '
     'always within [1 - delta, 1 + delta]; the reported cost is the reconstruction error using scaled archetypes and '
     'never increases. With delta zero the factors stay exactly one.',
     ['inputs', 'histories', 'configurations'], 'all data sets, relaxations, starts and iteration counts',
     'tests with nonzero delta only check that cost decreases and never look at the factors', ['archetypal_analysis.py'],
     [('scale factor step', 'KernelAA._update_dictionary / _scale_factors_line_search')], ['KernelAA.alpha', 'cost_'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
