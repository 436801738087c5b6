"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
            'observe_at': observe,
            'hook_needed': None}})


L = 'runlmc/linalg/'
prop('C01', 'Structured matrices act exactly like the dense matrices they define',
     'Every structured matrix type (Toeplitz, block-Toeplitz of any order, Kronecker, block diagonal, symmetric block, sum, composition, diagonal, identity, dense adapter, wrapped product, interpolated-grid matrix), and any nesting of them, multiplies vectors and matrices and materialises, up to floating-point rounding, as the dense matrix that its constructor arguments define. This holds for every size including 1 and non-powers of two, for rectangular factors where allowed, for real or integer operands in any memory layout, and through the scipy linear-operator view.',
     ['inputs', 'programs'], 'all nestings of the matrix types, all sizes and numeric contents, all operand dtypes and layouts',
     'Unit tests try a few fixed sizes per type with float64 contiguous vectors; nesting depth, sizes around powers of two, asymmetric grid shapes, integer or strided operands and the linear-operator path are unsampled.',
     [L + f for f in ('toeplitz.py', 'bttb.py', 'kronecker.py', 'block_diag.py', 'block_matrix.py', 'sum_matrix.py', 'composition.py', 'diag.py', 'identity.py', 'numpy_matrix.py', 'matrix.py')] + ['runlmc/approx/ski.py'],
     [('circulant embedding and real FFT product', L + 'toeplitz.py, ' + L + 'bttb.py'), ('reshape-based Kronecker product', L + 'kronecker.py'), ('offset tables for blocks', L + 'block_diag.py, ' + L + 'block_matrix.py')],
     ['matvec', 'matmat', 'as_numpy', 'as_linear_operator'])

prop('C02', 'Using a structured matrix changes neither the matrix nor its operands',
     'No sequence of products, materialisations, linear-operator products, eigenvalue bounds, string conversions or pickling round trips on structured matrices that share components changes what any of them computes, and none of these operations modifies an operand or an array passed at construction. A pickled and restored matrix is the same linear map as the original.',
     ['histories', 'inputs'], 'all operation sequences on sets of matrices sharing sub-blocks',
     'Tests build a fresh matrix per assertion and never check operands afterwards, re-use after pickling or interleaved use of shared blocks.',
     [L + 'matrix.py', L + 'toeplitz.py', L + 'bttb.py', L + 'kronecker.py', L + 'sum_matrix.py', L + 'composition.py', L + 'diag.py', L + 'identity.py', L + 'block_matrix.py', L + 'block_diag.py'],
     [('products allocate fresh results; the linear-operator cache is dropped when pickling', L + 'matrix.py')],
     ['matvec', 'matmat', 'as_numpy', 'as_linear_operator', 'pickle'])

prop('C03', 'Eigenvalue bounds are true upper bounds',
     'For every structured matrix that is symmetric positive semi-definite and reports an upper eigenvalue bound, the reported number is finite and is at least the largest true eigenvalue of the matrix (up to relative rounding). This includes sums, Kronecker products, symmetric block matrices and interpolated-grid matrices built from such parts.',
     ['inputs', 'programs'], 'all PSD structured matrices and nestings that offer a bound',
     'Tests check the bound on a handful of fixed or random matrices of one type at a time, never for the interpolated-grid matrix.',
     [L + 'toeplitz.py', L + 'kronecker.py', L + 'block_matrix.py', L + 'sum_matrix.py', L + 'diag.py', L + 'identity.py', 'runlmc/approx/ski.py'],
     [('Gershgorin row sums by a running total', L + 'toeplitz.py'), ('Weyl / norm composition', L + 'sum_matrix.py, ' + L + 'block_matrix.py')],
     ['upper_eig_bound'])

I = 'runlmc/approx/interpolation.py'
prop('C04', 'Cubic interpolation weights are right for every sample and grid',
     'For every equispaced increasing grid of at least four points (one per axis in the two-dimensional case) and every sample, each row of the interpolation matrix holds the Keys cubic-convolution weights of the four (sixteen in 2-D) surrounding grid points in the row-major order of the grid, with out-of-range neighbours clamped to the border point: rows sum to one, are exact at interior grid points and reproduce quadratics in the interior. Grids that are not one-dimensional, too short or not equispaced and samples of the wrong dimension are rejected with ValueError.',
     ['inputs'], 'all grids (offset, spacing, size, unequal axes) and all samples, incl. on grid points, at borders and outside',
     'Tests compare averaged error on a few grids and random samples; they do not pin exact weights on grid points, borders, clamping or unequal axes.',
     [I], [('four-tap convolution with clamped indices', I)], ['interp_cubic', 'interp_bicubic', 'cubic_kernel'])

prop('C05', 'Multi-output interpolation is the block diagonal of per-output ones',
     'For any list of per-output inputs on a shared one- or two-dimensional grid, the combined interpolation matrix equals the block-diagonal of the per-output interpolation matrices, in output order, with one full grid of columns per output. Outputs without any points (first, middle, last or all) contribute no rows but keep their columns.',
     ['inputs'], 'all numbers of outputs, point counts incl. zero in any position, 1-D and 2-D grids',
     'Tests use one or two fixed ragged examples.',
     [I], [('CSR index arithmetic', I + ' multi_interpolant')], ['multi_interpolant'])

prop('C06', 'The inducing grid always covers the data and honours the request',
     'For all data and any optional bounds and sizes, the generated grid has per dimension exactly the requested number of points plus four (default: average points per output), is equispaced and increasing, starts two requested spacings below and ends two above the hull of the requested bounds and the data of all outputs. Hence every data coordinate of every output lies at least one grid cell inside the grid, also when the user bounds do not contain the data.',
     ['inputs', 'configurations'], 'all datasets, user bounds inside/outside/partly overlapping the data, sizes, 1-3 input dimensions',
     'Tests check a few fixed combinations in one dimension.',
     [I], [('hull of bounds and data, padded by two spacings', I + ' autogrid')], ['autogrid', 'grid axes of a model'])

K = 'runlmc/kern/'
prop('C07', 'Kernels evaluate their documented formula and are valid covariances',
     'For every admissible parameter value and every array of non-negative distances (any shape, including scalars in an array and integer dtype), each kernel returns elementwise its documented formula (RBF, Matern-3/2, standard periodic, identity, and the scaled wrapper as scale times its inner kernel), with the same shape, equal to the kernel variance at distance zero. Kernel matrices over any point set (one-dimensional for the periodic kernel) are symmetric positive semi-definite up to rounding.',
     ['inputs'], 'all parameter values, distances, shapes, kernel compositions',
     'Tests evaluate each kernel at one parameter value on ten integers; the scaled wrapper has no test.',
     [K + f for f in ('rbf.py', 'matern32.py', 'std_periodic.py', 'identity.py', 'scaled.py')],
     [('closed-form evaluation', K)], ['from_dist'])

prop('C08', 'Kernel gradients are the derivatives of the kernel, for every parameter',
     'For every kernel and parameter value, the list of gradients has one entry per optimisable kernel parameter, in the order in which gradients are stored back, and each entry is the derivative of the kernel value with respect to that parameter at every distance. Storing a gradient vector places each component on the matching parameter, including nested scaled kernels, whose scale is an optimisable parameter of the model like any other.',
     ['inputs'], 'all kernels, nestings of the scaled wrapper, parameter values and distances',
     'Tests compare at one parameter value on ten integers, and never for the scaled wrapper or for storing gradients.',
     [K + f for f in ('rbf.py', 'matern32.py', 'std_periodic.py', 'scaled.py')],
     [('closed-form derivatives', K)], ['kernel_gradient', 'update_gradient', 'parameter list'])

prop('C09', 'GPy exports and the GPy-backed model describe the same process',
     'Exporting an RBF, Matern-3/2 or periodic kernel to GPy yields a kernel with the same covariance for every pair of points, and the GPy-backed multi-output model computes likelihood, predictive mean and variance, and quantiles of exactly the multi-output process its kernels and coregionalization parameters define, returned per output in input order. This holds for inputs of any dimension, kernels on chosen active dimensions, uneven output sizes and query batches with empty outputs. In sparse mode the likelihood is the variational lower bound for the inducing points of that very model.',
     ['inputs', 'configurations'], 'all kernel parameters, kernel/rank lists, ragged outputs and query batches',
     'Tests check one parameter value per kernel and compare likelihoods on one dataset; query batches are barely used.',
     [K + 'rbf.py', K + 'matern32.py', K + 'std_periodic.py', 'runlmc/models/gpy_lmc.py'],
     [('lengthscale conversion', K), ('stacking with an output index column', 'runlmc/models/gpy_lmc.py')], ['to_gpy', 'predict', 'predict_quantiles', 'log_likelihood'])

FK = 'runlmc/lmc/functional_kernel.py'
LL = 'runlmc/lmc/likelihood.py'
M = 'runlmc/models/interpolated_llgp.py'
prop('C10', 'The exact covariance is the documented LMC formula',
     'For every mix of LMC (any rank), SLFM and independent-output kernels, with any active dimensions, output sizes and parameter values, the exact covariance between points x of output a and x\' of output b is the sum over kernels of B_q[a,b] k_q(|x-x\'| over the active dimensions of q), with B_q = A_q^T A_q + diag(kappa_q). The training covariance adds the noise of each output on its diagonal only; a rectangular cross-covariance between two point sets has no noise, and its transpose is the reversed cross-covariance.',
     ['inputs', 'configurations'], 'all kernel mixes, ranks, active dimension subsets, output counts and sizes',
     'Tests use RBF-only LMC kernels with a couple of outputs; SLFM, independent kernels on chosen outputs, split dimensions and unequal sizes are not covered.',
     [LL, FK], [('per-block scaling of dense kernels', LL), ('coregionalization matrices', FK)], ['K()', 'kernel_from_indices', 'coreg_mats'])

prop('C11', 'The scalable covariance operator is W (sum B_q x k_q(U)) W^T + noise',
     'For every mix of LMC, SLFM and independent kernels, any active dimensions (one or two per kernel), grid shape, output count and output sizes, the covariance operator that the scalable model multiplies with equals, up to rounding, the interpolation of the exact multi-output covariance on the inducing grid, summed over groups of active dimensions, plus the per-output noise. The result does not depend on which internal structured representation the model chooses.',
     ['configurations', 'inputs'], 'all kernel mixes and parameter values on both sides of every representation switch',
     'Tests cover all-LMC models with a few shapes; the kernel-mix dimension, in particular models without LMC kernels or with several groups of active dimensions, is unsampled.',
     ['runlmc/lmc/grid_kernel.py', FK, 'runlmc/approx/ski.py', M],
     [('representation choice and the three grid representations', 'runlmc/lmc/grid_kernel.py')], ['matrix product of the model covariance'])

prop('C12', 'The approximation converges to the exact model as the grid is refined',
     'For smooth kernels and data inside the grid, refining the inducing grid makes the scalable covariance, normal quadratic and predictions converge to those of the exact model: quadrupling the grid density never leaves a non-negligible error that has not dropped by a large factor. Non-grid choices (default bounds, user bounds beyond the data) do not change the limit.',
     ['inputs', 'configurations'], 'all smooth-kernel models, datasets and refinement sequences in one and two dimensions',
     'Tests use one grid size with loose tolerances; a rate can only be seen along a sequence of models.',
     [I, M, 'runlmc/lmc/grid_kernel.py'], [('cubic interpolation order', I)], ['K()', 'covariance operator', 'predict'])

prop('C13', 'Coregionalization structure and constraints survive any use',
     'Through any sequence of parameter assignments, optimisation steps, fixing/unfixing and predictions, the coregionalization matrix of an LMC kernel stays A^T A plus a strictly positive diagonal, that of an SLFM kernel stays exactly A^T A of rank at most one, and that of an independent kernel stays exactly the unit matrix entry of its own output; noise variances and kernel parameters stay strictly positive. Fixed parameters keep their value, and the number and order of kernels reported by the model match what the user supplied.',
     ['histories', 'configurations'], 'all kernel mixes and all operation sequences',
     'Tests never optimise models with SLFM or independent kernels.',
     [FK, 'runlmc/models/optimization.py'], [('constraints and unlinked parameters', FK)], ['coreg_mats', 'parameter values', 'optimize'])

prop('C14', 'Iterative solves meet their tolerance or say so',
     'For every symmetric positive definite operator, right-hand side, tolerance and both methods, the iterative solver returns a vector whose residual norm is at most the tolerance, or else reports the failure in the log at critical level; it never reports failure when the residual is within tolerance and the method converged. In verbose mode the reported error equals the actual residual norm of the returned vector and the reported count is the number of iterations performed, and inputs are not modified. The tolerance given to a model is the one its solves keep or report.',
     ['inputs', 'configurations'], 'all SPD operators from well to very badly conditioned, sizes beyond the early-stopping interval, tolerances, both methods',
     'There is no test of the solver; ill-conditioned systems needing hundreds of iterations never arise in the tests.',
     ['runlmc/approx/iterative.py'], [('residual check after the Krylov method; early termination in the callback', 'runlmc/approx/iterative.py')], ['solve', 'log records'])

prop('C15', 'Reported likelihood terms are those of the Gaussian model',
     'For every model and parameter setting, the reported normal quadratic equals y^T K^-1 y for the scalable covariance within solver tolerance, the reported log determinant is that of the exact covariance, and the reported log likelihood equals -1/2 (quadratic + log determinant + n log 2 pi). The exact likelihood computation agrees with the dense multivariate normal density.',
     ['inputs', 'configurations', 'histories'], 'all kernel mixes, datasets, parameter settings, normalised or not',
     'Tests compare a few RBF-only configurations right after construction.',
     [M, LL], [('Cholesky and iterative solution', M + ', ' + LL)], ['log_likelihood', 'log_det_K', 'normal_quadratic'])

prop('C16', 'Exact gradients are the derivatives of the exact log likelihood',
     'For every kernel mix, dataset and parameter setting, each component of the exact gradients (coregionalization vectors and diagonals, kernel parameters in parameter order, noise per output) is the partial derivative of the exact Gaussian log likelihood with respect to that quantity. Every parameter that has an effect gets its own component.',
     ['inputs', 'configurations'], 'all kernel mixes, ranks, active dimensions, parameters',
     'Tests compare with numerical derivatives for RBF-only LMC models of tiny size.',
     [LL, 'runlmc/lmc/exact_deriv.py', 'runlmc/lmc/derivative.py'], [('trace identities', 'runlmc/lmc/exact_deriv.py')], ['*_gradients of the exact likelihood'])

prop('C17', 'Stochastic gradients are unbiased and land on the right parameters',
     'For every kernel mix and parameter setting, the gradient that the scalable model exposes for each optimisable parameter is, given its random sign probes, exactly the trace estimate of the derivative of the scalable log likelihood with respect to that parameter; averaged over probes it equals that derivative. With the probes spanning all coordinate signs evenly it has no bias from the solver beyond its tolerance, and more probes reduce its spread.',
     ['inputs', 'configurations', 'histories'], 'all kernel mixes, probe draws and parameters',
     'Tests never compare the approximate gradients; a single noisy draw cannot show a missing factor or a misplaced component.',
     ['runlmc/lmc/stochastic_deriv.py', LL, FK, M], [('Hutchinson estimate from shared solves', 'runlmc/lmc/stochastic_deriv.py'), ('gradient routing', FK)], ['gradient of each model parameter', 'linear solves issued'])

PZ = 'runlmc/parameterization/'
prop('C18', 'Priors enter objective and gradient consistently',
     'For any assignment of priors to any set of parameters, in any order and with later replacement or removal, the objective equals minus the log likelihood minus the log prior density of every prior-carrying parameter including the change-of-variables term of its constraint, and the prior part of the objective gradient is the derivative of the prior part of the objective for every parameter. Every prior density is normalised, its gradient is its derivative, it acts elementwise, and setting it constrains the parameter to its domain.',
     ['configurations', 'histories', 'inputs'], 'all sets, orders and histories of prior assignments, all hyperparameters',
     'Priors have no tests.',
     [PZ + 'model.py', PZ + 'priors.py', PZ + 'priorizable.py'], [('sum over prior index sets plus constraint Jacobians', PZ + 'model.py')], ['log_prior', 'objective_function', 'objective_function_gradients', 'lnpdf'])

prop('C19', 'Predictive mean and variance are those of the Gaussian process',
     'For every kernel mix, dataset, parameter setting and query, the predictive mean equals the posterior mean under the scalable covariance, and the predictive variance equals prior variance of the output (with noise) minus explained variance, floored at zero: with the exact covariance in exact mode, with exact cross-covariances and the scalable training covariance in on-the-fly mode, and with the explained variance interpolated from the grid in precompute mode. Precompute mode refuses models whose kernels use different active dimensions with ValueError.',
     ['inputs', 'configurations'], 'all kernel mixes, prediction modes, query batches incl. training points, borders, far extrapolation',
     'Tests check one dataset with loose agreement between modes for RBF-only models.',
     [M, LL, 'runlmc/models/multigp.py'], [('three variance methods', M)], ['predict'])

prop('C20', 'Prediction is pointwise: batch, order and repetition do not matter',
     'The prediction for a point of an output does not depend on which other points or outputs are queried with it, on their order, on duplicates, or on how often one asks; empty outputs give empty arrays in place, and every output returns arrays of the length of its query. Variances are finite and never negative, in the exact and on-the-fly modes never above the prior variance of the output, and precomputed state is reused without changing answers.',
     ['inputs', 'histories', 'configurations'], 'all query batches, groupings, permutations and sequences of calls in every mode',
     'Tests query once with one full batch.',
     [M, 'runlmc/models/multigp.py'], [('concatenate, split by length', M)], ['predict', 'predict_quantiles'])

prop('C21', 'Quantile predictions are the Gaussian quantiles of predict',
     'For all queries and quantile lists (any order, iterable type, duplicates, any value strictly between 0 and 100), the predicted quantiles equal predictive mean plus standard-normal quantile times predictive standard deviation on the original scale of the output, one row per query point and one column per requested quantile in the requested order. They are monotone in the requested quantile, and the 50% quantile is the mean.',
     ['inputs', 'configurations'], 'all models, queries and quantile lists',
     'Tests check the default pair on one dataset.',
     ['runlmc/models/multigp.py', 'runlmc/util/normalizer.py'], [('normal quantiles and inverse normalisation', 'runlmc/models/multigp.py')], ['predict_quantiles', 'predict'])

prop('C22', 'Normalisation makes the model equivariant to output units',
     'With normalisation on, rescaling and shifting any output by its own positive factor and offset leaves likelihood and normalised data unchanged and transforms that output\'s predictive mean, variance and quantiles accordingly, leaving the others alone; internally each output has zero mean and unit standard deviation, and normalising then inverting returns the data. With normalisation off the data are used as given.',
     ['inputs', 'configurations'], 'all per-output affine maps incl. extreme magnitudes, all models and modes',
     'Tests check standardisation of one dataset.',
     ['runlmc/util/normalizer.py', 'runlmc/models/multigp.py'], [('per-output standardisation and inverse', 'runlmc/util/normalizer.py')], ['predict', 'predict_quantiles', 'log_likelihood', 'Ys'])

prop('C23', 'Models respect the symmetries of the data',
     'Relabelling outputs (with matching parameters), reordering observations within an output, reordering kernels with their parameters, and translating all inputs (with queries and bounds) leave covariance, likelihood and predictions unchanged up to that relabelling, within solver tolerance. Giving one-dimensional inputs as vectors or as one-column matrices, or observations and inputs as integers instead of equal floats, makes no difference.',
     ['inputs', 'configurations'], 'all permutations, translations and input representations for all kernel mixes and modes',
     'Tests never transform the data.',
     [M, 'runlmc/models/multigp.py', LL, 'runlmc/lmc/grid_kernel.py', I], [('stacking by output, grid from data extrema', M)], ['predict', 'log_likelihood', 'K()'])

prop('C24', 'A model depends only on its data and current parameters, not on history',
     'After any sequence of parameter assignments (singly, in blocks or with updates switched off and on), optimisations, predictions in any mode, mode switches, likelihood queries and copies, interleaved over several models living at once, each model reports the same covariance, likelihood and predictions as a freshly built model with the same data and parameters. Using or changing one model never changes the answers of another, and log verbosity makes no difference.',
     ['histories'], 'all interleaved operation sequences over several live models',
     'Tests exercise a single model right after construction; caches are shared by all models and never stressed.',
     [M, FK], [('cached dense covariance, grid posterior, native variance, precomputed variance, dropped on parameter change', M)], ['predict', 'log_likelihood', 'K()', 'normal_quadratic'],
     [('cached derived quantities', 'must always correspond to current parameters of that model', M)])

prop('C25', 'Parallelism is invisible except in speed',
     'For every worker count, completion order and speed of the workers, a model computes the same likelihood terms, gradients (for the same random state) and predictions as with a single process, results being matched to their tasks by position; an exception in a task reaches the caller. Small problems and a worker limit of one start no processes, and dropping a model leaves no worker that blocks program exit.',
     ['schedules', 'configurations', 'fault_sequences'], 'all worker counts, delays, completion orders and task failures',
     'Test datasets are below the size at which the pool is used, so nothing parallel is ever run.',
     ['runlmc/util/inline_pool.py', M, 'runlmc/lmc/stochastic_deriv.py'], [('ordered starmap over a process pool', 'runlmc/util/inline_pool.py')], ['predict', 'gradient', 'starmap results', 'child processes'])

prop('C26', 'The optimiser stops when it must and leaves the model at its last iterate',
     'For every objective and setting, optimisation performs at most the permitted number of iterations and stops early exactly at the permitted number of iterations whose gradient norm (largest absolute component) is below the given fraction of the largest norm seen so far; it calls the callback once per iteration, follows the AdaDelta recursion with the given step rate, decay, momentum and offset, and leaves the model (and the reported optimum) at the final iterate. An exception raised by the callback propagates to the caller.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'], 'all gradient sequences, stopping settings and faults',
     'The optimiser has no direct test.',
     ['runlmc/models/optimization.py', 'runlmc/models/multigp.py'], [('loop over the AdaDelta iterator', 'runlmc/models/optimization.py')], ['optimize', 'callback invocations', 'x_opt', 'parameters'])

prop('C27', 'Recorded metrics describe the run they belong to',
     'With metrics on, every evaluation of the model during optimisation appends exactly one entry to each metric list, and the entries are the true values: mean iterations and mean residual of the solves performed, largest absolute approximate gradient component, its largest deviation from the exact gradient relative to the exact one, and the log likelihood at those parameters. A new optimisation starts with empty lists, and turning metrics on does not change the optimisation path.',
     ['histories', 'configurations'], 'all runs and kernel mixes',
     'Metrics have no tests.',
     [M, 'runlmc/lmc/metrics.py', 'runlmc/lmc/stochastic_deriv.py'], [('appends in parameter-change hook and solve service', M)], ['metrics lists'])

prop('C28', 'Malformed input is rejected with ValueError before any result',
     'Every malformed construction is refused with ValueError: no outputs, different numbers of inputs and outputs, mismatched lengths, inputs that are not one- or two-dimensional, outputs that are not vectors, inconsistent input dimensions, constant outputs, missing kernel or output count, mismatched or non-positive ranks, mismatched or out-of-range independent-kernel indices, an output count that disagrees with the data, unknown prediction modes, ill-shaped matrix components, and priors or lengths that make no sense; queries of the wrong dimension are refused likewise. Well-formed input, including SLFM-only and independent-only kernels, is accepted.',
     ['inputs', 'configurations'], 'all positions (any output, any argument) at which an input can be malformed',
     'Tests try each mistake in one position, mostly with one output.',
     ['runlmc/models/multigp.py', FK, M, L + 'matrix.py', PZ + 'priors.py', 'runlmc/util/numpy_convenience.py'], [('validation at construction', 'runlmc/models/multigp.py, ' + FK)], ['constructors', 'predict'])

prop('C29', 'Data handed in by the caller are never modified',
     'Constructing models and kernels, changing parameters, optimising, predicting (all modes) and building grids or interpolants never modify the arrays or lists passed in by the caller: inputs, outputs, queries, bounds, grid sizes, quantiles and parameter arrays keep their bytes. Read-only arrays are accepted everywhere.',
     ['inputs', 'histories'], 'all entry points and argument kinds, all dtypes',
     'Tests never compare arguments before and after.',
     [M, 'runlmc/models/multigp.py', I, FK, 'runlmc/approx/iterative.py'], [('copies before in-place arithmetic', I)], ['all public constructors and methods'])

prop('C30', 'Array helpers meet their contracts on every array',
     'For all arrays (any shape, dtype, memory layout, empty where allowed): mapping over entries applies the function at each position; splitting by lengths partitions in order, allowing zero lengths, and rejects wrong totals; descending search returns the documented index for inclusive and exclusive thresholds and rejects unsorted arrays; begin/end offsets, chunks, Cartesian products (last axis fastest), symmetric maps and the smallest Toeplitz eigenvalue agree with their direct definitions.',
     ['inputs'], 'all arrays, layouts, lengths, thresholds',
     'Tests use a few small contiguous arrays.',
     ['runlmc/util/numpy_convenience.py'], [('numpy primitives', 'runlmc/util/numpy_convenience.py')], ['helper return values'])

prop('C31', 'Mean functions and their gradients agree',
     'For any offsets and ragged inputs, the constant mean returns its own offset for every point of each output and the zero mean returns zeros, with one vector per output of matching length; the mean gradient of parameter j is the derivative of the mean vectors with respect to it, and storing a gradient places each component on its parameter. Inputs of the wrong number or dimension, or offsets of the wrong shape, are rejected with ValueError.',
     ['inputs'], 'all output counts, lengths incl. zero, offsets',
     'Tests use up to three outputs with fixed data.',
     ['runlmc/mean/constant.py', 'runlmc/mean/zero.py', 'runlmc/mean/mean_function.py'], [('per-output constant', 'runlmc/mean/constant.py')], ['f', 'mean_gradient', 'update_gradient'])

prop('C32', 'The Toeplitz Cholesky factor reproduces its matrix',
     'For every symmetric positive definite Toeplitz matrix given by its first row, the Schur-algorithm factor is upper triangular with positive diagonal and its transpose times itself equals the matrix up to rounding. Scaling the first row by c scales the factor by the square root of c, and the given row is not modified.',
     ['inputs'], 'all SPD Toeplitz first rows, sizes from 1',
     'The factorisation has no test.',
     [L + 'shur.py'], [('generalised Schur recursion', L + 'shur.py')], ['factor'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
