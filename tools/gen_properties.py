#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so wording lives in one readable place)."""
import json, os
L = 'LinearResponseVariationalBayes/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': [L + f for f in files],
                          'state': [dict(name=a, meaning=b, where=L + c) for a, b, c in state],
                          'mechanism': [dict(name=a, where=L + b) for a, b in mech],
                          'observe_at': list(observe), 'hook_needed': None}})

PAR = ['Parameters.py', 'MatrixParameters.py', 'SimplexParams.py', 'ProjectionParams.py', 'ParameterDictionary.py',
       'NormalParams.py', 'GammaParams.py', 'WishartParams.py', 'DirichletParams.py']

p('C01', 'The free encoding is a bijection onto the constraint set',
  'For every parameter type (scalar, vector, array, positive-definite matrix and vectors/arrays of them, simplex, subspace vector, the distribution parameters and nested dictionaries), setting any finite unconstrained vector of the advertised free size yields a value that satisfies the declared constraints: within the bounds, symmetric and positive definite above the diagonal bound, rows summing to one, orthogonal to the declared subspace. '
  'Reading the free vector back returns the vector that was set, and setting the free vector read from any valid value restores that value, up to the conditioning of the map. '
  'The map itself is the documented one (log / logistic for bounds, log-diagonal Cholesky above the diagonal bound, multinomial logit with the first entry as reference, orthonormal coordinates of the subspace).',
  ['inputs', 'configurations'],
  'every parameter type, size, shape, bound configuration and nesting; every valid value and every finite free vector small enough that the exponential does not overflow (for two-sided bounds: every finite vector)',
  'The tests round-trip one hand-picked value per type at one size and two or three bounds, compared to 6 decimals; they reach neither large-magnitude free values, nor shapes of other ranks, nor diagonal bounds on matrices, nor nested dictionaries.',
  PAR, [('constrain/unconstrain', 'Parameters.py'), ('pack_posdef_matrix/unpack_posdef_matrix', 'MatrixParameters.py'),
        ('constrain_simplex_matrix/unconstrain_simplex_matrix', 'SimplexParams.py'), ('get_perpendicular_subspace', 'ProjectionParams.py'),
        ('ModelParamsDict.set_free/get_free', 'ParameterDictionary.py')],
  observe=['set_free', 'get_free', 'get', 'set', 'free_size'])

p('C02', 'The vector encoding is lossless and has the documented layout',
  'For every parameter type, the vector encoding of a value lists its entries in the documented order (row-major arrays; lower triangle by rows for symmetric matrices, matrix after matrix; entries of a dictionary concatenated in the order they were added), and has the advertised vector size. '
  'Setting a vector and reading it back returns exactly the same numbers, and the value read back holds each entry at its documented place (symmetric matrices being exactly symmetric). '
  'The index parameter made from any parameter holds, at every place, the position of that entry in the vector encoding, and making it leaves the original unchanged. '
  'The row indices a simplex parameter reports select exactly that row; the matrix packing helpers are inverse to each other (row-major lower triangle, log diagonal), and their forward- and reverse-mode derivatives are the true ones.',
  ['inputs', 'configurations'],
  'every parameter type, size, shape and nesting; every real vector of the right length, including values outside the constraints (index parameters rely on that)',
  'The tests check one 2x2 matrix, one (3,2) array and one flat dictionary, always set-after-get so a consistently permuted layout passes; nested dictionaries, 3-d arrays and matrix arrays are never compared to a layout.',
  PAR + ['SparseObjectives.py'], [('vectorize_ld_matrix/unvectorize_symmetric_matrix', 'MatrixParameters.py'),
        ('get_vector/set_vector', 'Parameters.py'), ('get_vector_indices', 'SimplexParams.py'), ('ModelParamsDict.get_vector/set_vector', 'ParameterDictionary.py'), ('make_index_param', 'SparseObjectives.py')],
  observe=['set_vector', 'get_vector', 'get', 'vector_size', 'make_index_param', 'get_vector_indices'])

p('C03', 'Sparse derivatives of the free-to-vector map are the true derivatives',
  'For every parameter type and every free vector, the sparse Jacobian and the list of sparse Hessians reported for the map from free to vector encoding equal the true first and second derivatives of that map, with shape (vector size x free size), one Hessian per vector entry in vector order. '
  'The value of the map itself equals the vector encoding of the value the free vector sets. '
  'Asking for these derivatives leaves every parameter, including other parameters and the one the copy was taken from, holding plain numbers and otherwise unchanged.',
  ['inputs', 'configurations'],
  'every parameter type, size, shape, bound configuration, nesting and order of entries; every free vector at which the derivatives are representable',
  'The tests compare to autograd, at one seeded point in (0,1) per type with one configuration each (default 2x2 matrices, 5x3 simplex), never for nested dictionaries or bounded-above parameters.',
  PAR, [('free_to_vector_jac/free_to_vector_hess', 'Parameters.py'), ('free_to_vector_jac/free_to_vector_hess', 'MatrixParameters.py'),
        ('constrain_grad_from_moment/constrain_hess_from_moment', 'SimplexParams.py'), ('free_to_vector_hess_offset', 'Parameters.py')],
  observe=['free_to_vector', 'free_to_vector_jac', 'free_to_vector_hess'])

p('C04', 'A vector-space Hessian converts exactly to the free-space Hessian',
  'Given the gradient and the Hessian of any function with respect to the vector encoding at a point, the conversion returns the Hessian of the same function with respect to the free encoding, for every parameter type and nesting and for dense as well as sparse input Hessians. '
  'After the conversion the parameter holds plain numbers equal to the value at the given free vector.',
  ['inputs', 'configurations'],
  'every parameter, every free vector, every gradient vector and symmetric Hessian matrix (dense, or sparse in any pattern)',
  'One function of one three-entry dictionary is tested at one random point, with a dense Hessian only.',
  ['Parameters.py', 'ParameterDictionary.py', 'MatrixParameters.py', 'SimplexParams.py'],
  [('convert_vector_to_free_hessian', 'Parameters.py'), ('offset_sparse_matrix', 'Parameters.py')],
  observe=['convert_vector_to_free_hessian'])

p('C05', 'A parameter dictionary is the ordered concatenation of its entries',
  'Through any history of adding entries (plain or nested), setting entries by name or through the value view, setting the whole free or vector encoding, and copying, the dictionary reads as the concatenation of its entries in the order added: sizes are the sums of the entries\' sizes, the free and vector encodings are the concatenations of the entries\' encodings, and the recorded index ranges select exactly the entry they name. '
  'Changing one entry, by name or through its index range, changes no other entry, and a deep copy and its original never affect each other. '
  'Names, printed form and the plain-data dump list the entries in that same order with their current values.',
  ['histories', 'inputs'],
  'every sequence of dictionary operations over every mix of entry types and nesting depths',
  'One fixed flat dictionary with four entries and a fixed sequence of calls is tested; no nesting, no copies, no interleaving of additions and updates.',
  ['ParameterDictionary.py', 'Parameters.py'],
  [('ModelParamsDict.push_param', 'ParameterDictionary.py'), ('ModelParamsDict.set_free/set_vector', 'ParameterDictionary.py'), ('ModelParamsDictValues', 'ParameterDictionary.py'),
   ('set_free_offset/set_vector_offset', 'Parameters.py')],
  state=[('param_dict', 'entries by name, in order', 'ParameterDictionary.py'), ('free_indices_dict / vector_indices_dict', 'index range of each entry', 'ParameterDictionary.py')],
  observe=['get_free', 'get_vector', '[]', 'values', 'free_indices_dict', 'vector_indices_dict', 'names', 'dictval'])

p('C06', 'Wrong-sized or out-of-bounds input is refused and changes nothing',
  'A value, free vector or vector encoding of the wrong size or shape is refused with an error by every parameter type and dictionary that checks sizes, and the refused call leaves the stored value exactly as it was. '
  'Contradictory bounds or inconsistent dimensions are refused at construction, and asking for the free encoding of a value outside its bounds (or a matrix not positive definite above its bound) raises an error instead of returning a number. '
  'A parameter built without a value starts at a valid interior value: finite, inside the bounds, of the declared size, with a finite free encoding.',
  ['inputs', 'configurations', 'histories'],
  'every parameter type and configuration, every wrong size or shape, every out-of-bounds value, after any earlier successful update',
  'The tests try one wrong size for three of the types and no default value except one unbounded array; no test checks that state survives a refused call.',
  PAR, [('get_inbounds_value', 'Parameters.py'), ('set/set_free/set_vector size checks', 'Parameters.py'), ('size and symmetry checks', 'MatrixParameters.py'),
        ('dimension checks', 'ProjectionParams.py'), ('unconstrain_array/unconstrain_scalar', 'Parameters.py')],
  observe=['constructors', 'set', 'set_free', 'set_vector', 'get_free'])

p('C07', 'Objective derivatives are the true derivatives in both encodings',
  'For every objective function of every parameter, the objective\'s value, gradient, Hessian, Jacobian and Hessian-vector product in the free encoding and in the vector encoding equal the true ones of the function composed with that encoding. '
  'Extra positional and keyword arguments reach the function unchanged in every one of these calls.',
  ['inputs', 'programs', 'configurations'],
  'every parameter type and nesting, every smooth scalar or vector-valued objective program over its values, every evaluation point, vector and extra arguments',
  'The tests use one quadratic of one bounded vector, and mostly compare derivatives of the library with each other.',
  ['SparseObjectives.py', 'Parameters.py', 'MatrixParameters.py', 'SimplexParams.py', 'ParameterDictionary.py', 'ProjectionParams.py'],
  [('Objective.fun_free*/fun_vector*', 'SparseObjectives.py'), ('unvectorize_ld_matrix custom derivatives', 'MatrixParameters.py')],
  observe=['Objective.fun_free', 'fun_vector', 'fun_*_grad', 'fun_*_hessian', 'fun_*_jacobian', 'fun_*_hvp'])

p('C08', 'Preconditioning is exactly a linear change of variables',
  'With any invertible preconditioner, dense or sparse, symmetric or not, the conditioned value, gradient, Hessian and Hessian-vector product are those of the function y -> f(P y), where f is the unconditioned objective in the free encoding, including any extra arguments. '
  'Un-conditioning maps a conditioned point y to P y, the parameters are left at P y, and using a conditioned method before a preconditioner is set is an error.',
  ['inputs', 'configurations', 'programs'],
  'every objective program, parameter, preconditioner matrix (dense / sparse, any symmetry), point, direction and extra arguments, and any change of the preconditioner between calls',
  'One almost-diagonal preconditioner is tested on one quadratic; the direction passed to the product is always the gradient.',
  ['SparseObjectives.py'],
  [('Objective.fun_free_cond and *_cond', 'SparseObjectives.py'), ('safe_matmul', 'SparseObjectives.py'), ('uncondition_x', 'SparseObjectives.py')],
  observe=['fun_free_cond', 'fun_free_grad_cond', 'fun_free_hessian_cond', 'fun_free_hvp_cond', 'uncondition_x', 'get_conditioned_x'])

p('C09', 'Derivative evaluations leave parameters numeric and at the right value',
  'After any sequence of value, gradient, Hessian, Jacobian, Hessian-vector-product and conditioned calls on objectives, two-parameter objectives and parameter converters sharing parameters, every parameter holds plain numbers equal to the point of the last call that set it. '
  'A converter Jacobian leaves the output parameter exactly as it was before the call. '
  'Sensitivity objects leave the input and hyper parameters at their base values after every derivative or series evaluation.',
  ['histories', 'inputs', 'programs'],
  'every interleaving of calls over shared parameters of every type, in both encodings',
  'The state left behind is never asserted after derivative calls; each test makes a fixed sequence of calls with one parameter set.',
  ['SparseObjectives.py', 'ModelSensitivity.py'],
  [('cache_free_and_eval/cache_vector_and_eval', 'SparseObjectives.py'), ('cache_and_eval', 'SparseObjectives.py'), ('set_par_to_base_values', 'ModelSensitivity.py')],
  state=[('par', 'value held by the shared parameter objects', 'SparseObjectives.py')],
  observe=['get', 'get_free', 'get_vector', 'dictval'])

p('C10', 'Two-parameter objectives return the true cross derivatives',
  'For every function of two parameters, the value, the gradient in each parameter and the cross Hessians in both orders equal the true ones, for every combination of free and vector encodings of the two parameters, with the first-named parameter in the rows. '
  'The two orders are transposes of each other and equal the off-diagonal blocks of the Hessian of the joint parameter; extra arguments reach the function unchanged.',
  ['inputs', 'programs', 'configurations'],
  'every pair of parameter types and sizes (equal or not), every smooth function program coupling them, every evaluation point and choice of encodings',
  'The tests use two vectors of the same size and a function that is symmetric in both, so a transposed result passes.',
  ['SparseObjectives.py'], [('TwoParameterObjective', 'SparseObjectives.py'), ('set_par', 'SparseObjectives.py')],
  observe=['fun_free', 'fun_vector', 'fun_grad1', 'fun_grad2', 'fun_*_hessian12', 'fun_*_hessian21', 'fun_hessian_free1_vector2', 'fun_hessian_vector1_free2'])

p('C11', 'Parameter-converter maps and Jacobians are the true ones',
  'For every conversion from one parameter to another, each of the four maps (free or vector input to free or vector output) returns the encoding of the converted value, and each of the four Jacobians is the true derivative of that map, with outputs in the rows. '
  'The four Jacobians are consistent with one another through the free-to-vector Jacobians of the two parameters.',
  ['inputs', 'programs', 'configurations'],
  'every pair of parameter types and sizes, every smooth conversion program, every input point',
  'One elementwise square between two vectors of equal size and one bound configuration is tested.',
  ['SparseObjectives.py'], [('ParameterConverter', 'SparseObjectives.py')],
  observe=['converter_*_to_*', '*_to_*_jacobian'])

p('C12', 'Linear sensitivity equals the implicit-function derivative',
  'For every objective that is locally strictly convex in the input parameter, the reported derivative of the optimum with respect to the hyperparameter equals minus the inverse Hessian times the cross Hessian at the base point, in whichever encoding (free or vector) was declared for each, using a supplied Hessian when one is given, and depending on the hyperparameter only through the hyperparameter-specific part of the objective when that is supplied. '
  'Predicted optima (and, for the output quantity, its linear or plug-in prediction) follow that derivative exactly from the base point, reproduce the base values at the base hyperparameter, and move to the new base point whenever it is re-set.',
  ['inputs', 'programs', 'configurations', 'histories'],
  'every objective program, input / hyper / output parameter types and sizes, base point, encoding declaration, optional Hessian and hyperparameter objective, and any sequence of re-basing and prediction',
  'One quadratic model with a linear hyperparameter term of equal dimension is tested, in the default encodings, with no supplied Hessian and no re-basing.',
  ['ModelSensitivity.py', 'SparseObjectives.py'],
  [('ParametricSensitivityLinearApproximation', 'ModelSensitivity.py'), ('ParametricSensitivity', 'SparseObjectives.py')],
  observe=['get_dinput_dhyper', 'get_doutput_dhyper', 'predict_input_par_from_hyperparameters', 'predict_output_par_from_hyperparameters'])

p('C13', 'Taylor expansions of the optimum are exact at every order',
  'For every objective that is locally strictly convex in the input parameter, every order up to the declared one and every hyperparameter direction, the reported k-th directional derivative of the optimum equals the true k-th derivative of the curve of solutions of the first-order conditions, in whichever encodings were declared. '
  'The series is the base value plus the derivatives over their factorials, truncated at the requested order; it agrees with the linear approximation at order one, and the derivatives are homogeneous of degree k in the direction. '
  'Supplying the Hessian at the base point or the hyperparameter-dependent part of the objective changes the cost and not the result; orders outside the declared range are refused; re-basing recomputes everything.',
  ['inputs', 'programs', 'configurations', 'histories'],
  'every objective program, parameter types, base points, directions, declared order, requested order and encodings, before and after re-basing or changing the order',
  'The tests check orders one to three for one quadratic model with a scalar-like hyperparameter coupling, one direction, default encodings.',
  ['ModelSensitivity.py'],
  [('ParametricSensitivityTaylorExpansion', 'ModelSensitivity.py'), ('DerivativeTerm', 'ModelSensitivity.py'), ('evaluate_dketa_depsk', 'ModelSensitivity.py')],
  observe=['evaluate_dkinput_dhyperk', 'evaluate_taylor_series'])

p('C14', 'Derivative arrays and term algebra are exact',
  'The array of repeated directional derivatives of a two-argument function evaluates, at every pair of orders, to the true mixed derivative contracted with the given directions in the order given. '
  'Differentiating a set of derivative terms gives terms that evaluate to the total derivative along the solution curve, consolidation returns one term per distinct derivative pattern, and evaluation before and after consolidation agrees. '
  'The derivative of the optimum solved from a set of terms makes the full set of terms vanish.',
  ['inputs', 'programs'],
  'every smooth two-argument vector function program, every point and directions, orders up to five, every multiset of terms in any order (repeats included)',
  'The tests use one function, orders up to two for mixed derivatives, and consolidate one list with a single pair of like terms.',
  ['ModelSensitivity.py'],
  [('append_jvp', 'ModelSensitivity.py'), ('generate_two_term_derivative_array', 'ModelSensitivity.py'), ('consolidate_terms', 'ModelSensitivity.py'), ('DerivativeTerm.differentiate', 'ModelSensitivity.py'), ('evaluate_terms', 'ModelSensitivity.py')],
  observe=['generate_two_term_derivative_array', 'consolidate_terms', 'differentiate_terms', 'evaluate_terms', 'evaluate_dketa_depsk'])

p('C15', 'Exponential-family entropies and expectations match the distributions',
  'For all valid natural parameters and array shapes, the entropies (normal, multivariate normal, gamma, beta, Dirichlet, Wishart, multinoulli) and the expectations (log-normal mean and variance, log gamma, Dirichlet mean and log mean, Wishart log determinant, log diagonal of the inverse, univariate normal natural parameters and log density) equal the exact integrals of the named distribution. '
  'Array versions act elementwise over the batch with the documented axis and summation, and the derivatives obtained by automatic differentiation are the derivatives of those integrals.',
  ['inputs', 'configurations'],
  'every valid parameter value over many orders of magnitude, every dimension and batch shape',
  'Each formula is compared to scipy at one parameter value (or by Monte Carlo with percent-level tolerance), always in dimension two for matrices.',
  ['ExponentialFamilies.py', 'Modeling.py'],
  [('*_entropy', 'ExponentialFamilies.py'), ('e_log_det_wishart / e_log_inv_wishart_diag', 'ExponentialFamilies.py'), ('multivariate_digamma / multivariate_gammaln', 'ExponentialFamilies.py'), ('get_e_* / get_var_*', 'ExponentialFamilies.py'), ('univariate_normal_log_prob', 'Modeling.py')],
  observe=['return values'])

p('C16', 'Distribution parameters report the moments of their distribution',
  'For every setting of their parameters (by value, free or vector encoding), the normal, multivariate normal, normal array, moment-parameterized normal, gamma, Wishart and Dirichlet parameter objects report moments and entropies that equal those of the distribution they parameterize, with shapes matching the declared ones. '
  'Different parameterizations of the same distribution report the same moments, covariance outputs are symmetric, and minimum values declared at construction are respected by the free encoding.',
  ['inputs', 'configurations', 'histories'],
  'every distribution parameter class, dimension / shape / minimum declared at construction and every valid setting reached through any encoding',
  'The tests only execute these methods without looking at the numbers, at the default size and default value.',
  ['NormalParams.py', 'GammaParams.py', 'WishartParams.py', 'DirichletParams.py', 'ExponentialFamilies.py'],
  [('MVNParam/UVN*/MVNArray', 'NormalParams.py'), ('GammaParam', 'GammaParams.py'), ('WishartParam', 'WishartParams.py'), ('DirichletParamArray', 'DirichletParams.py')],
  observe=['e', 'e_outer', 'e2', 'var', 'cov', 'e_exp', 'var_exp', 'e2_exp', 'e_log', 'e_log_det', 'e_inv', 'e_log_lkj_inv_prior', 'entropy'])

p('C17', 'Quadrature expectations under normals are correct',
  'The Gauss-Hermite expectation of a function of normal variables is exact for polynomials up to the degree of the rule, elementwise over arrays of any shape, and the logit-normal expectations (mean, log, log of the complement, Dirichlet-process prior) agree with that rule and with each other for all finite means, however extreme, and so do their derivatives. '
  'The logistic-term expectations agree with the exact expectation to the accuracy of the nodes supplied, aggregate by summation over observations, and stay finite for large linear predictors; the standard draws are the equally spaced normal quantiles.',
  ['inputs', 'configurations'],
  'every array shape, mean, precision, polynomial and number of nodes; predictors from very negative to very large',
  'The tests compare by Monte Carlo within three standard errors for one shape, and never evaluate extreme predictors.',
  ['ExponentialFamilies.py', 'Modeling.py'],
  [('get_e_fun_normal', 'ExponentialFamilies.py'), ('get_e_log_logitnormal', 'ExponentialFamilies.py'), ('get_e_logistic_term*', 'Modeling.py'), ('get_standard_draws', 'Modeling.py')],
  observe=['return values'])

p('C18', 'Expected log priors are expectations of the log density up to a constant',
  'For each prior (multivariate normal, univariate normal, gamma, exponential, Dirichlet, LKJ on the inverse of a Wishart variable), the returned value equals the expectation of the log prior density under any distribution with the given moments, up to a constant that does not depend on the random variable. '
  'It is linear in the supplied moments, and differences between two distributions equal the differences of the exact expectations.',
  ['inputs', 'configurations'],
  'every prior parameter, dimension, and pair of distributions supplying the moments',
  'Only the LKJ term is tested, by Monte Carlo in dimension two; the other priors have no test.',
  ['ExponentialFamilies.py'], [('mvn_prior / uvn_prior / gamma_prior / exponential_prior / dirichlet_prior / expected_ljk_prior', 'ExponentialFamilies.py')],
  observe=['return values'])

p('C19', 'Regression updates are the exact conjugate posterior',
  'For every design, response, noise precision (scalar or full matrix) and batch layout, the natural parameters are those of the Gaussian likelihood of the coefficients, the regression coefficients are the generalized least-squares solution, and the posterior mean and precision are the exact conjugate update, where extra leading dimensions of the response share one coefficient vector and their data is pooled. '
  'Batched results equal the results of each batch element computed alone; updating on the data in two parts gives the same posterior as updating at once.',
  ['inputs', 'configurations'],
  'every number of observations, coefficients and batch dimensions (including one and unequal), every well-conditioned design and precision',
  'Five fixed layouts are tested with random data, with the batch sizes fixed.',
  ['regression_utils.py'],
  [('get_nat_params_from_likelihood', 'regression_utils.py'), ('get_nat_params_from_prior', 'regression_utils.py'), ('get_mvn_from_nat_params', 'regression_utils.py'), ('mat_mul_last2dims / matvec_mul_last2dims', 'regression_utils.py')],
  observe=['return values'])

p('C20', 'Optimization wrappers return the optimum in the original coordinates',
  'For every strictly convex smooth objective, both minimizers, with or without a preconditioner, return a point in the original free coordinates at which the gradient is small and which agrees with the true optimum, and do not depend on the preconditioner beyond optimization tolerance. '
  'The optimizer result is returned unchanged next to it, and the log of evaluated points is reset or kept as requested.',
  ['inputs', 'configurations', 'programs'],
  'every strictly convex objective program, starting point that is not already stationary, preconditioner (none, Hessian-based with or without thresholds, arbitrary invertible) and wrapper option',
  'One quadratic with one starting point is tested, with the exact inverse square-root Hessian.',
  ['OptimizationUtils.py', 'SparseObjectives.py'],
  [('minimize_objective_trust_ncg / minimize_objective_bfgs', 'OptimizationUtils.py'), ('set_objective_preconditioner', 'OptimizationUtils.py'), ('uncondition_x', 'SparseObjectives.py')],
  observe=['return values', 'objective.logger'])

p('C21', 'Repeated optimization stops exactly when a criterion is met',
  'For every sequence of points produced by the inner optimizer, repeated optimization starts each round at the previous round\'s point (the first at the initial optimizer\'s result, if there is one), stops after the first round whose change in the point, change in the value or gradient (points and gradients in the L1 norm) is within tolerance or when the iteration limit is reached, and returns the last round\'s point and result. '
  'The convergence flags say exactly which criteria the last round met, and the intermediate results are all kept, in order, when asked for and none otherwise. All of this holds too for an inner optimizer that works in place or returns the same array every time.',
  ['histories', 'inputs', 'configurations'],
  'every scripted sequence of inner-optimizer results (including stalls, cycles and divergence), non-zero tolerances (negative ones disable a criterion), iteration limit of at least one and options',
  'One gradient-descent run is tested and only its final point is looked at, to 4 decimals.',
  ['OptimizationUtils.py'], [('repeatedly_optimize', 'OptimizationUtils.py')], observe=['return values', 'calls to the optimizer'])

p('C22', 'The matrix inverse square root honours eigenvalue thresholds',
  'For every symmetric matrix (or the symmetric part of any square one) whose thresholded eigenvalues are positive, the returned matrix is a symmetric square root of the inverse of the corrected matrix, and the corrected matrix is the input with each eigenvalue clipped to the given bounds and the same eigenvectors. '
  'The input matrix is not modified, and setting an objective\'s preconditioner from a Hessian, or from the point at which to evaluate it, installs exactly this matrix.',
  ['inputs', 'configurations'],
  'every square matrix (repeated, negative and tiny eigenvalues, non-symmetric input), every consistent threshold combination',
  'One 3x3 matrix with thresholds half-way between its eigenvalues is tested.',
  ['OptimizationUtils.py'], [('get_sym_matrix_inv_sqrt', 'OptimizationUtils.py'), ('set_objective_preconditioner', 'OptimizationUtils.py')], observe=['return values', 'objective.preconditioner'])

p('C23', 'Conjugate-gradient solves and masks are exact',
  'For every positive-definite operator, the solver returns the solution of the linear system to its tolerance, with or without a starting guess or preconditioner, and the masked solves return, for each mask, the solution for the vector restricted to that mask, recorded in order together with the mask and vector used. '
  'The generated masks partition the index range into consecutive blocks, as few as possible with none longer than requested, and splitting a mask preserves its true entries exactly once (in two equal halves up to one entry; recursively, with no piece longer than the limit).',
  ['inputs', 'histories', 'configurations'],
  'every well-conditioned positive-definite system and dimension, mask set, tolerance and sequence of solves; every length, smaller block size, Boolean mask and positive limit',
  'One 50-dimensional system and one (20, 3) mask layout are tested; recursive splitting is not tested.',
  ['ConjugateGradient.py'],
  [('ConjugateGradientSolver', 'ConjugateGradient.py'), ('get_masks / split_vector / recursive_split', 'ConjugateGradient.py')],
  state=[('vecs / hinv_vecs / masks', 'results recorded by masked solves', 'ConjugateGradient.py')],
  observe=['get_hinv_vec', 'get_hinv_vec_subsets', 'hinv_vecs'])

p('C24', 'Sparse helpers neither lose nor move entries',
  'Packing a sparse matrix, in memory or through JSON text, and unpacking it returns a matrix with the same shape, type and entries, for every sparsity pattern including empty rows, matrices without entries and explicit zeros. '
  'Embedding a dense block at given row and column indices places every entry at exactly those positions of a matrix of the given size and nothing elsewhere; mixed dense / sparse products equal the dense product. None of these changes the matrices it is given.',
  ['inputs', 'configurations'],
  'every shape with at least one row and column, sparsity pattern, dtype and finite entries; every list of distinct row and column indices in any order',
  'One 3x3 pattern is packed in memory, the JSON form and the block embedding have no test (the code says so).',
  ['SparseObjectives.py', 'Parameters.py'],
  [('pack_csr_matrix / unpack_csr_matrix', 'SparseObjectives.py'), ('json_pack_csr_matrix / json_unpack_csr_matrix', 'SparseObjectives.py'), ('get_sparse_sub_matrix / get_sparse_sub_hessian', 'SparseObjectives.py'), ('safe_matmul / compress', 'SparseObjectives.py'), ('offset_sparse_matrix', 'Parameters.py')],
  observe=['return values'])

p('C25', 'The optimization log records every verbose evaluation in order',
  'Through any history of verbose and silent evaluations, plain or conditioned, the log holds exactly the points and values of the verbose ones since the last reset, in order, with the unconditioned free point, and counts them. '
  'Messages or callbacks are issued for every n-th logged evaluation starting with the first, with the log already updated; changing the caller\'s array afterwards does not change the log, and logging never changes the value returned.',
  ['histories', 'inputs'],
  'every sequence of evaluations, resets, preconditioner changes and settings of the reporting interval and callback',
  'The log is never looked at by a test.',
  ['SparseObjectives.py'], [('Logger', 'SparseObjectives.py'), ('Objective.fun_free / fun_free_cond verbose', 'SparseObjectives.py')],
  state=[('x_array / val_array / iter', 'recorded history', 'SparseObjectives.py')],
  observe=['logger.x_array', 'logger.val_array', 'logger.iter', 'logger.callback'])

p('C26', 'Linear response covariances are exact where theory says so',
  'Fit a product of the library\'s distributions (univariate and multivariate normals, gamma, Wishart and Dirichlet, with any lower bounds) by the negative evidence lower bound built from their moment and entropy methods. '
  'If the target belongs to the same family, its parameters are a stationary point with the exact value of the bound, and the linear response covariance of the moments (Jacobian, inverse Hessian, Jacobian transposed) in either encoding, and the derivative of the moments with respect to the target\'s natural parameters from either linear sensitivity class, equal the exact covariance of the sufficient statistics; the Taylor expansions follow the exact path of optima, and an optimizer that reports success is at the exact optimum. '
  'If independent normals are fitted to a correlated normal, the linear response covariance of the means is the exact covariance of the target.',
  ['inputs', 'configurations'],
  'every product of up to three distributions, with moderate parameters and bounds; every target in the family or correlated normal; both encodings; partial or full hyperparameter objective',
  'The tests check pieces separately; no test compares a linear response covariance with a known covariance.',
  ['NormalParams.py', 'GammaParams.py', 'WishartParams.py', 'DirichletParams.py', 'ExponentialFamilies.py', 'SparseObjectives.py', 'ModelSensitivity.py', 'OptimizationUtils.py', 'Parameters.py'],
  [('moment and entropy methods', 'NormalParams.py'), ('Objective / ParameterConverter derivatives', 'SparseObjectives.py'), ('ParametricSensitivityLinearApproximation / ParametricSensitivityTaylorExpansion', 'ModelSensitivity.py'), ('minimize_objective_trust_ncg', 'OptimizationUtils.py')],
  observe=['derivatives at the optimum', 'sensitivities', 'predictions', 'where the optimizers stop'])
p('C27', 'Calls leave their arguments and earlier results alone and answer the same again',
  'No library function or method changes an array, list, mask, matrix or other object passed to it as an argument. '
  'A result handed out (a value, gradient, Hessian, Jacobian, list of coordinate Hessians, sparse matrix, packed dictionary, derivative terms, the optimum of a search) is not changed by later calls, and a caller who writes into it does not change what later calls return for values passed or set afresh. '
  'Calling again with equal arguments gives an equal result, whatever was called in between, in any order, and also when the caller keeps the arguments in one array and overwrites it between the calls: nothing is remembered by the identity of an array, by part of the arguments, or from an earlier call.',
  ['inputs', 'histories'],
  'every function of ExponentialFamilies, Modeling, regression_utils, the matrix and simplex encodings, the sparse and preconditioning helpers; the calls of every parameter type, objective, two-parameter objective, converter, solver and sensitivity class; every sequence of calls and reuse of arrays',
  'Tests call each function once or twice with fresh arrays and do not look at the arrays afterwards.',
  ['ExponentialFamilies.py', 'Modeling.py', 'regression_utils.py', 'MatrixParameters.py', 'SimplexParams.py', 'Parameters.py', 'SparseObjectives.py', 'OptimizationUtils.py', 'ConjugateGradient.py', 'ModelSensitivity.py'],
  [('moments, entropies and priors', 'ExponentialFamilies.py'), ('packing helpers', 'MatrixParameters.py'), ('Objective / TwoParameterObjective / ParameterConverter', 'SparseObjectives.py'), ('evaluate_terms / differentiate_terms / get_taylor_base_terms', 'ModelSensitivity.py')],
  observe=['arguments after the call', 'results after later calls', 'results of repeated calls'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
