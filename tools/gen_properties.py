"""Single source for properties.jsonl (python3 tools/gen_properties.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

p("C01", "Every link function, its inverse and all its derivatives are one function",
  "For every link function shipped for the generalized linear, mixed and location-scale models, the forward link and its inverse undo each other at every point of the link's domain. Every derivative a link offers, of the link or of its inverse and of any order, equals the derivative of the function it is named after at every point, for every value of the link's parameters.",
  ["inputs", "configurations"],
  "all link classes x all arguments in the link's domain x all link parameter values x all derivative orders offered",
  "A test compares a few points of a few links; the pinned suite exercises only the links its GLM fits happen to use (log, logit, identity), first and second order. Third/fourth order derivatives and rarely used links are never evaluated.",
  ["pystatsm/pyglm/links.py", "pystatsm/pyglm2/links.py", "pystatsm/pylmm/links.py", "pystatsm/pygam/gauls.py"],
  [("Link.inv_link / dinv_link / d2inv_link / link / dlink / d2link / d3link / d4link", "the link classes of each package")],
  observe=["return value of a link object's methods"])

p("C02", "Variance functions of exponential families and their derivatives agree",
  "For every response distribution of the generalized linear and mixed model families, every derivative offered for its variance function, of any order and whether offered singly or bundled, equals the derivative of that same variance function with respect to the mean, at every admissible mean and for every value of the family's own shape parameter.",
  ["inputs", "configurations"],
  "all families x all means in the family's domain x all family parameters x every derivative order offered",
  "Tests fit a handful of models with a fixed family; a wrong second or third variance derivative only perturbs observed-information weights and smoothing gradients and is invisible in a converged fit.",
  ["pystatsm/pyglm2/families.py", "pystatsm/pyglm/families.py", "pystatsm/pylmm/families.py"],
  [("var_func / dvar_dmu / d2var_dmu2 / d3var_dmu3 / var_derivs / dvar_func", "the family classes of each package")])

p("C03", "Family log-likelihood, canonical map and dispersion derivatives are coherent",
  "For every exponential family of the generalized linear, mixed and additive model packages, the offered log-likelihood, variance function, deviance, residuals, working weights and every derivative offered in the mean, the linear predictor, the dispersion or the saturated likelihood's scale describe one distribution: each is the function that the offered log-likelihood implies. The canonical parameter, its offered derivatives, its inverse map to the mean and the cumulant describe one function, the cumulant's derivative being the mean and the canonical parameter's slope the reciprocal of the variance function. This holds for every response, mean, prior weight and dispersion, and weights given to a call are the ones used.",
  ["inputs", "configurations"],
  "all families x all responses, means, prior weights and dispersions in the domain",
  "Tests compare end-to-end fits on single datasets where weights are one and dispersion is profiled; they cannot see an incoherent weight, dispersion derivative or rarely used family.",
  ["pystatsm/pyglm2/families.py", "pystatsm/pyglm/families.py", "pystatsm/pylmm/families.py"],
  [("canonical_parameter / cumulant / mean_func / loglike / deviance / dtau / d2tau / llscale / dllscale / d2llscale", "the family classes")])

p("C04", "Model gradients and Hessians are the derivatives of the model's objective",
  "For every likelihood-based regression model that supplies its own objective together with an analytic gradient, per-observation scores or Hessian (count, zero-inflated, ordinal, beta, robust and location-scale models), the supplied gradient is the exact first derivative and the supplied Hessian the exact second derivative of the objective in every parameter, for every dataset, offset, weight vector and parameter value.",
  ["inputs", "configurations"],
  "all covered models x datasets x case weights x parameter values x links",
  "Tests check single fits, mostly with unit weights and converged parameters; an error that vanishes at unit weights, in an empty cell, or at the optimum passes.",
  ["pystatsm/pyglm2/zinf.py", "pystatsm/pyglm2/clm.py", "pystatsm/pyglm2/glm.py", "pystatsm/pyglm/nb2.py", "pystatsm/pyglm/betareg.py", "pystatsm/pyglm/clm.py", "pystatsm/pyglm/zimodels.py", "pystatsm/pygam/gauls.py"],
  [("_loglike / _gradient / _hessian and loglike / gradient / hessian method pairs", "the model classes")])

p("C05", "Distributions: density, log-density, CDF, quantile and derivatives agree",
  "For every continuous distribution the library implements in closed form (sinh-arcsinh families and skew-normal), the log-density is the logarithm of the density, the density is the derivative of the distribution function, and the quantile function inverts the distribution function, for every argument and parameter value. Every derivative array offered for a log-density, of any order and in every parameter, equals the corresponding partial derivative of that log-density, and the offered means, variances, skewnesses and kurtoses are moments of one distribution.",
  ["inputs"],
  "all arguments and parameter values; all partial derivatives up to fourth order",
  "The existing tests compare two distributions against finite differences at one parameter vector; the generated fourth-order derivative code has thousands of subexpressions, each reachable by any input.",
  ["pystatsm/misc/shash1.py", "pystatsm/misc/shashr.py", "pystatsm/misc/shash_lpdf4.py", "pystatsm/misc/shashr_lpdf4.py", "pystatsm/misc/sash.py", "pystatsm/misc/sinharcsinh_dist.py", "pystatsm/misc/skewnorm_dist.py"],
  [("pdf / logpdf / cdf / ppf / inverse_cdf and the lpdf derivative modules", "pystatsm/misc")])

p("C06", "Robust estimators: influence, weight and derivative functions come from one rho",
  "For every robust M-estimation loss, the influence function is (up to the loss's fixed normalising constant) the derivative of the loss, the weight function is the influence function divided by its argument, and the influence derivative is the derivative of the influence function, on every branch of the piecewise definition and for every tuning constant. The tuning constants a caller supplies are the ones used.",
  ["inputs", "configurations"],
  "all losses x all residuals in every branch x all tuning constants",
  "One test fits one estimator at default tuning; branch-specific errors in the tails of a redescending loss or at non-default tuning never show.",
  ["pystatsm/pyrobust/m_estimators.py", "pystatsm/pyrobust/rls.py"],
  [("rho_func / psi_func / phi_func / weights", "norm classes")])

p("C07", "Rotation criteria and their gradients agree for every loading matrix",
  "For every factor-rotation criterion, the gradient offered (and any second derivative offered) is the exact derivative of the criterion value at every loading matrix, and for every value of the criterion's tuning parameters. The combined value-and-gradient evaluation returns the same numbers as the separate ones.",
  ["inputs", "configurations"],
  "all criteria x loading matrices of every size x tuning parameters",
  "Tests check a couple of criteria on one or two loading matrices through finite differences at default tuning.",
  ["pystatsm/pyfa/rotation.py", "pystatsm/pyfa2/rotation.py", "pystatsm/pyfa2/criterion.py"],
  [("Q / dQ / d2Q / vgQ, value / gradient", "the criterion classes")])

p("C08", "Elementwise parameter transforms invert and differentiate exactly",
  "Every scalar or elementwise parameter transformation offered to optimisers maps forward and backward without loss at every admissible value, and its offered Jacobian and Hessian in each direction are the exact first and second derivatives of that direction's map.",
  ["inputs", "configurations"],
  "all elementwise transforms x all admissible values x both directions",
  "Tests use one random vector per transform and mostly exercise the composite round trip, where complementary errors cancel.",
  ["pystatsm/utilities/param_transforms.py", "pystatsm/pygam/transforms.py"],
  [("_fwd / _rvs / _jac_fwd / _jac_rvs / _hess_fwd / _hess_rvs and public counterparts", "transform classes")])

p("C09", "Discrepancy functions for covariance structures agree with their gradients",
  "For every covariance-structure discrepancy (maximum likelihood, least squares and their weighted variants) and factor-model objective, the offered gradient is the exact derivative of the offered objective in the model parameters, for every sample covariance matrix and every parameter value.",
  ["inputs", "configurations"],
  "all discrepancy functions x sample covariances x parameter values",
  "Tests compare at one parameter vector for one model size.",
  ["pystatsm/pysem/fitfunctions.py", "pystatsm/pyfa/efa.py", "pystatsm/pyfa/factor_analysis.py", "pystatsm/pyfa2/likelihood.py"],
  [("function / gradient / hessian", "fit function classes")])

p("C10", "A caller's seed or generator fully determines every random result",
  "Whenever a caller supplies a seed, random state or generator to a simulation, resampling, sampling-design or stochastic-fitting entry point, every random draw made on behalf of that call comes from that generator and from nowhere else. No entry point that accepts such an argument ignores it, reseeds from fixed constants, or draws from a process-wide generator.",
  ["inputs", "histories", "configurations"],
  "all seeds, all call histories (including draws made by unrelated code in the same process), all call chains",
  "A test that seeds and compares twice passes as long as nothing else in the process draws in between; only some entry points are ever run.",
  ["pystatsm/utilities/random.py", "pystatsm/utilities/complexdesign", "pystatsm/pyfa2", "pystatsm/pysem2/model_simulator.py", "pystatsm/pylmm", "pystatsm/pyglm2/model_sim.py"],
  [("rng / seed / random_state parameters and numpy.random uses", "all simulation code")])

p("C11", "Library calls leave the caller's arrays, frames and dictionaries unchanged",
  "No public function or method modifies in place an array, data frame, list or dictionary that its caller passed in, nor a default shared by later calls, unless in-place operation is that routine's announced purpose. In particular fitting a model, transforming parameters or evaluating an objective leaves the supplied data, parameter vectors, option dictionaries and sample statistics as they were.",
  ["inputs", "histories"],
  "all public entry points x all argument objects x aliasing between arguments",
  "Tests look at return values and rarely re-inspect the inputs; aliasing bugs show only on the next use of the same object.",
  ["pystatsm"],
  [("every function that stores into an object reachable from a parameter", "whole package")])

p("C12", "Results never depend on hash ordering",
  "Parameter order, column order, variable order and every other ordered result is a function of the inputs alone and not of the hash-dependent iteration order of unordered collections. The same model given the same data therefore produces identically ordered tables, matrices and parameter vectors in every interpreter process.",
  ["configurations", "inputs"],
  "all hash seeds x all variable names and model specifications",
  "The suite runs with one fixed hash seed, so every run sees one iteration order.",
  ["pystatsm/pysem", "pystatsm/pysem2", "pystatsm/pylmm", "pystatsm/utilities"],
  [("iteration over sets flowing into ordered results", "model specification and formula code")])

p("C13", "Compiled kernels stay inside their buffers and free what they allocate",
  "For every structurally valid input of conformable shapes (for the in-place products and sums: an output whose sparsity pattern holds the result), a compiled sparse, Kronecker or indexing kernel reads and writes only inside the buffers it was given or allocated, releases every buffer it allocates exactly once on every exit, and never uses an allocation that failed.",
  ["inputs", "fault_sequences"],
  "all matrix shapes and sparsity patterns the wrappers admit x allocation failure at every allocation",
  "The tests call the kernels on a few small matrices without memory checking and never with a failing allocator.",
  ["pystatsm/utilities/src", "pystatsm/utilities/cython_wrappers.pyx", "pystatsm/utilities/ordered_indices.pyx"],
  [("malloc/free discipline and index arithmetic in the C kernels", "pystatsm/utilities/src/*.c")])

p("C14", "Evaluating an objective or its derivatives does not change the model",
  "Evaluating a model's objective, log-likelihood, gradient, Hessian or prediction at some parameter value does not change what any later evaluation at any other value returns, nor the fitted results the model reports. Two evaluations at the same parameters give the same answer regardless of what was evaluated in between.",
  ["histories"],
  "all sequences of evaluation calls on one model object",
  "Tests evaluate once in a fixed order; stale caches need a particular interleaving of evaluations.",
  ["pystatsm/pyglm2", "pystatsm/pylmm", "pystatsm/pysem2", "pystatsm/pyfa2", "pystatsm/pygam", "pystatsm/pylvcorr"],
  [("attribute writes performed by evaluation methods", "model classes")])

p("C15", "Independent objects and calls share no mutable state",
  "Two model, family, link, transform or design objects created independently never influence one another, and a call never leaves behind state that changes a later call with other arguments: no default argument, class-level container or module-level container is written after import by ordinary use.",
  ["histories"],
  "all sequences of object constructions and method calls in one process",
  "Tests build one object per case; leakage requires a second object and a first one that changed the shared default.",
  ["pystatsm"],
  [("mutable default arguments, class attributes and module globals", "whole package")])

p("C16", "Every name, attribute and call in the library resolves",
  "No documented entry point can fail because the library refers to a name, module member or method that does not exist, or calls one of its own functions with arguments that function does not accept. Values passed or returned by position arrive under the names they were given: arguments are not transposed and a result tuple is unpacked into as many names as it has entries. This holds on every path, including rarely taken branches and error handling.",
  ["inputs", "configurations"],
  "all code paths of all modules",
  "Python resolves names only when the line runs; 127 tests reach a fraction of 50k lines.",
  ["pystatsm"],
  [("name binding, attribute lookup and call binding", "whole package")])

p("C17", "Vectorised symmetric matrices use one element order everywhere",
  "The half-vectorisation of a symmetric matrix, its inverse, the duplication, elimination and commutation operators, and every index helper derived from them use the same element order for every matrix size, so that expanding a half-vectorised matrix always returns the matrix it came from and the operators map between full and half vectorisations of the same matrix.",
  ["inputs"],
  "all matrix sizes and all symmetric matrices",
  "Tests use one size, and symmetric inputs hide row/column order swaps.",
  ["pystatsm/utilities/linalg_operations.py", "pystatsm/utilities/indexing_utils.py", "pystatsm/utilities/special_mats.py"],
  [("vech / invech / vec / tril index helpers / duplication, elimination, commutation matrices", "utilities")])

p("C18", "Information criteria and fit statistics follow their definitions",
  "Every reported information criterion, likelihood-ratio statistic and pseudo-R-squared is the same function of the maximised log-likelihood, the parameter count and the sample size in every model of the library: AIC adds two per parameter to minus twice the log-likelihood, BIC adds the log sample size per parameter, and AICc and CAIC differ from these by their standard corrections. Fit indices built from chi-square statistics (their p-values, RMSEA, TLI, NFI, IFI, RNI, CFI) are their definitions in the statistics and degrees of freedom of the fitted and null model, and adjusted pseudo R-squared measures fall as parameters are added.",
  ["inputs", "configurations"],
  "all models reporting such statistics x all datasets",
  "No test checks these reported values for most models; any constant slip leaves estimates unaffected.",
  ["pystatsm/pyglm2", "pystatsm/pyglm", "pystatsm/pylmm", "pystatsm/pygam", "pystatsm/pysem", "pystatsm/pysem2", "pystatsm/pyfa"],
  [("the functions computing AIC/BIC/AICc/CAIC and pseudo R-squared", "model packages")])

p("C19", "Confidence limits bracket the estimate at the level asked for",
  "Wherever the library reports lower and upper confidence limits built from an estimate and a standard error, the two limits lie symmetrically around that estimate on the scale on which they are built, at the two-sided quantile of the reference distribution for the requested level. Reported p-values are two-sided tail probabilities of the same statistic and reference distribution, with residual (not model) degrees of freedom where the reference is Student's t, for every estimate, standard error, degrees of freedom and level.",
  ["inputs", "configurations"],
  "all estimates, standard errors, degrees of freedom and confidence levels",
  "Tests check point estimates; interval endpoints at non-default levels are not compared with anything.",
  ["pystatsm/pyglm2", "pystatsm/pyglm", "pystatsm/pylmm", "pystatsm/pysem2", "pystatsm/pyfa2", "pystatsm/pygam", "pystatsm/utilities"],
  [("interval and p-value construction in result tables", "model packages")])

p("C20", "Finite-difference derivative helpers implement consistent stencils",
  "Every finite-difference helper approximates the derivative it is named after: for every smooth function the approximation it returns tends to the exact derivative as the step shrinks, for every argument dimension, and a step size and extra arguments supplied by the caller are the ones used.",
  ["inputs"],
  "all smooth functions, all argument vectors, all steps",
  "These helpers are the oracle of the repository's own tests; nothing checks them independently.",
  ["pystatsm/utilities/numerical_derivs.py"],
  [("forward/central difference routines for gradients, Jacobians and Hessians", "numerical_derivs.py")])

p("C21", "Options a caller sets take effect",
  "Every option a caller passes to a constructor or public function influences the result or is rejected: no accepted parameter is silently overwritten before it is used, or dropped, whatever its value. Where a function hands its work to another that takes the same option, the caller's value is passed on, and entries the caller gives in an option dictionary win over the defaults. Parameters a method accepts only because all members of its family share one signature are outside this promise.",
  ["inputs", "configurations"],
  "all public constructors and functions x all their parameters",
  "Tests exercise default options; an ignored option is indistinguishable from the default.",
  ["pystatsm"],
  [("parameter use and option dispatch", "whole package")])

p("C22", "Iterative fits converge to a stationary point of their objective",
  "Every iterative fitting routine that reports convergence has reached a point where the gradient of its objective is within the stated tolerance, for every dataset on which the objective has an interior optimum.",
  ["inputs"],
  "all datasets and starting values",
  "Tests try a few well-conditioned datasets.",
  ["pystatsm/pyglm2", "pystatsm/pylmm", "pystatsm/pysem2", "pystatsm/pyglmnet"],
  [("optimiser loops", "fit methods")])

p("C23", "Sparse mixed-model results equal those of the dense marginal model",
  "For every linear mixed model (LMM, MLMM, LMM2 and the mixed model equations behind it), every grouping structure (nested, crossed, terms in any order, covariates that are zero within a group, levels with a known relationship matrix, several responses) and every covariance parameter, the restricted and full likelihoods, their gradients and Hessians, the fixed and random effects with their standard errors, the degrees of freedom and the variance decomposition, V^-1 products and assembled random-effect covariances computed through sparse factorizations equal those of the dense marginal model V = ZGZ' + R, whichever of the sparse and dense code paths is taken; on the optimiser's (Cholesky or unconstrained) scale they follow by the chain rule.",
  ["inputs", "configurations"],
  "all random-effect structures x covariance parameters x data x code paths",
  "Tests compare a handful of designs at one or two parameter values, mostly through one code path.",
  ["pystatsm/pylmm/lmm.py", "pystatsm/pylmm/mlmm.py", "pystatsm/pylmm/re_mod.py", "pystatsm/pylmm/model_matrices.py"],
  [("sparse and dense evaluation of the likelihood, gradient, Hessian", "LMM, MLMM"), ("mixed model equations", "re_mod.MMEBlocked, LMM2"), ("random-effect covariance structures", "re_mod.RandomEffects, KronIG, KronAG")])

p("C26", "Latent-variable correlations maximise the likelihood of their own table",
  "For every pair of ordinal (or ordinal and continuous) variables and every correlation and set of thresholds: the cell probabilities the package computes are the bivariate-normal probabilities of the rectangles between consecutive thresholds and add up to one; the estimation criterion is minus the multinomial (or conditional normal) log-likelihood of the observed table; gradients and second derivatives with respect to the correlation, the thresholds and the optimiser's unconstrained scale are that criterion's derivatives, and the normal and bivariate-normal distribution kernels equal the functions they stand for; in a matrix of correlations each pair is optimised on its own table with its own thresholds and start and is stored, symmetrically, at that pair's place; and the asymptotic covariance of the correlations is the one of the two-step estimator, with threshold estimation taken into account.",
  ["inputs", "configurations"],
  "all tables, correlations, thresholds and sets of variables",
  "Tests estimate a correlation or two on simulated data, where a wrong derivative, a swapped pair or a missing threshold contribution stays within the simulation tolerance.",
  ["pystatsm/pylvcorr/lvcorr.py", "pystatsm/pylvcorr/polychoric.py", "pystatsm/pylvcorr/polychoric2.py", "pystatsm/pylvcorr/statfuncs.py", "pystatsm/utilities/func_utils.py"],
  [("cell probabilities, likelihood, gradient, Hessian", "lvcorr._Polychor, Polyserial, polychoric.Polychor, polychoric2.Polychor"), ("bivariate normal kernels", "statfuncs, func_utils"), ("storage and hand-over of pairs", "PolychoricCorr, polychoric2"), ("asymptotic covariance", "lvcorr, polychoric, polychoric2")])

p("C24", "Survey estimators are design-unbiased with valid variance estimates",
  "For every supported sampling design the point estimators are design-unbiased and the replication variance estimators have the expectation the design implies.",
  ["inputs", "configurations", "histories"],
  "all populations, designs and replication methods",
  "Tests simulate a few populations.",
  ["pystatsm/utilities/complexdesign"],
  [("inclusion probabilities and replicate weights", "complexdesign")])

p("C25", "Model formulas mean what they say",
  "A structural-equation or mixed-model formula is parsed into exactly the free, fixed and constrained parameters its operators denote, for every combination of operators, variable names and modifiers, independent of whitespace and term order.",
  ["inputs", "programs"],
  "all formulas of the grammar",
  "Tests parse a fixed list of formulas.",
  ["pystatsm/pysem/formula_parser.py", "pystatsm/pysem/formula.py", "pystatsm/pysem2/formula.py", "pystatsm/pylmm/model_matrices.py"],
  [("formula parsers", "formula modules")])

if __name__ == "__main__":
    for d in P: print(json.dumps(d))
