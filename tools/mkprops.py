#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because the lines are long)."""
import json, os
OPT = 'include/tinyopt/optimizers/optimizer.h'
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': False}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})


p('C01', 'A run always ends within its iteration budget and says why',
  "Whatever costs, gradients and Hessians the user's function returns and whatever the stop options are, an optimisation call returns; it performs at most max_iters+1 iterations (one more with the final-cost check), where an explicit non-negative argument overrides the option. The reported iteration count equals the number of iterations performed, and the reported stop reason is never 'none': it is 'maximum iterations' exactly when the whole budget was used and no other criterion fired.",
  ['inputs', 'histories', 'configurations'], 'all sequences of (cost, gradient, Hessian, residual count) answers, all failure limits, both ways of giving the budget, Gauss-Newton, Levenberg-Marquardt and gradient descent',
  'Tests run a few well-behaved problems that converge; none feeds adversarial sequences of costs or a solver that keeps failing, so neither the bound nor termination of the retry loop is exercised.',
  [OPT, 'include/tinyopt/optimizers/options.h', 'include/tinyopt/stop_reasons.h'],
  [('iteration loop and budget', OPT + ': Optimizer_::OptimizeAcc'), ('retry loop around building/solving the system', OPT + ': Optimizer_::Step')],
  ['Output::num_iters', 'Output::stop_reason', 'number of calls of the user function'],
  [('num_iters', 'iterations performed', 'include/tinyopt/output.h'), ('num_consec_failures', 'failures in a row', 'include/tinyopt/output.h')])

p('C02', 'Reported final cost is the best accepted one and the histories agree',
  "Over any run, an iteration is marked successful exactly when its cost is strictly below every cost accepted before it, and the reported final cost is the cost of the last successful iteration, which is the minimum of the cost history. The cost, step-size and success histories have one entry per evaluated step and hold the cost returned, the squared length of the step computed and the acceptance decision of that iteration; the reported relative decrease is that of the last accepted iteration, and the number of failures counts the rejected or unsolvable iterations.",
  ['inputs', 'histories'], 'all cost sequences (up to the bounded length) and step vectors',
  'Tests check that a handful of problems converge to a small cost; no test looks at a sequence with interleaved increases, ties or decreases.',
  [OPT, 'include/tinyopt/output.h'],
  [('acceptance test and history update', OPT + ': Optimizer_::Step')],
  ['Output::errs', 'Output::deltas2', 'Output::successes', 'Output::final_cost', 'Output::final_rerr_dec', 'Output::num_failures'])

p('C03', 'Rejected steps are undone; returned parameters match the reported cost',
  "At every return the parameters equal the point at which the reported final cost was measured, plus at most the one step computed last. When the run stops on a failure to evaluate or solve, or on a failure limit, they equal that point exactly, and every point the user's function is evaluated at is the accepted point or the accepted point plus the step just computed. An accepted iteration moves the parameters by exactly its step.",
  ['inputs', 'histories'], 'all sequences of accepted, rejected and failed iterations up to the bounded length',
  'Convergence tests only see the end point of runs where nearly every step is accepted; a missing or doubled roll-back is hidden by later accepted steps.',
  [OPT, 'include/tinyopt/traits.h'],
  [('step application and roll-back', OPT + ': Optimizer_::OptimizeAcc')],
  ['x after the call', 'x passed to the user function', 'Output::final_cost'])

p('C04', 'The stop reason is the first stopping criterion that holds',
  "After each evaluated step the criteria are tested in the order minimal error, minimal relative decrease (only for a decrease), minimal step length, minimal gradient, user callback; the run stops at the first iteration at which one holds, reports that one, and ignores criteria set to zero. A run is classified as succeeded exactly when the reason is not one of the failures, and as converged exactly for the four minimality criteria.",
  ['inputs', 'configurations', 'histories'], 'all thresholds, costs, steps and gradients for runs of bounded length',
  'Tests assert a stop reason on isolated problems; the order, the strictness at each threshold and the disabled value are never separated from each other.',
  [OPT, 'include/tinyopt/stop_reasons.h', 'include/tinyopt/output.h'],
  [('stop tests', OPT + ': Optimizer_::Step'), ('classification', 'include/tinyopt/output.h: Output::Succeeded, Output::Converged')],
  ['Output::stop_reason', 'Output::Succeeded()', 'Output::Converged()'])

p('C05', 'Failure limits stop a run exactly when they are reached',
  "A run stops with 'too many consecutive failures' at the iteration where the number of rejected steps since the last accepted one reaches the configured limit, and with 'too many failures' where the total reaches its limit, the consecutive limit being tested first; a limit of zero never stops a run. Attempts to solve the system that fail count as failures as well. An accepted step resets the consecutive count and nothing else.",
  ['inputs', 'histories', 'configurations'], 'all accept/reject sequences and limits within the bounded length',
  'Tests use the default limits on problems where they do not bind.',
  [OPT], [('failure counters and limits', OPT + ': Optimizer_::Step')],
  ['Output::stop_reason', 'Output::num_failures', 'Output::num_consec_failures'])

p('C06', 'Unusable evaluations are reported as failures and never applied',
  "If an evaluation yields a NaN or infinite cost or step, no residuals, an unsolvable system, or the parameters are empty, the run stops with the matching failure reason (NaN/Inf, skipped, solver failed), is not reported as succeeded, and the parameters and the reported final cost stay those of the last accepted evaluation. The parameters never become NaN or infinite.",
  ['inputs', 'fault_sequences', 'histories'], 'a NaN/Inf/empty/unsolvable answer injected at any evaluation of a bounded run, for each solver',
  'Tests inject one NaN or empty problem at the very first evaluation only.',
  [OPT, 'include/tinyopt/cost.h', 'include/tinyopt/solvers/gn.h', 'include/tinyopt/solvers/lm.h', 'include/tinyopt/solvers/gd.h'],
  [('failure classification', OPT + ': Optimizer_::Step'), ('empty parameters', OPT + ': Optimizer_::ResizeIfNeeded'), ('validity of a cost', 'include/tinyopt/cost.h: Cost::isValid')],
  ['Output::stop_reason', 'x after the call', 'Output::final_cost'])

p('C07', 'Time limit and user callbacks stop the run when they should',
  "With a positive time limit the run stops with 'timed out' at the end of the first iteration after which the accumulated iteration time exceeds the limit, and never before; a limit of zero disables it. A stop callback is called once per evaluated step that no other criterion ended, with that iteration's cost, step and gradient, and the run stops with 'user stopped' exactly when it returns true.",
  ['inputs', 'schedules', 'histories'], 'all non-decreasing clock readings and all callback answers within bounded runs',
  'Tests cannot control the clock; the callback test only counts one early stop.',
  [OPT, 'include/tinyopt/time.h'],
  [('time accounting', OPT + ': Optimizer_::OptimizeAcc'), ('callbacks', OPT + ': Optimizer_::Step'), ('clock conversion', 'include/tinyopt/time.h: toc_ms, dt_ms')],
  ['Output::stop_reason', 'Output::duration_ms', 'arguments of the callbacks'])

p('C08', 'Dense symmetric solve returns true solutions, and always for definite systems',
  "For a symmetric matrix given by its upper triangle and any right-hand side, the dense linear solve either refuses or returns a vector that solves the system. It never refuses a positive-definite matrix, always refuses a matrix with a negative eigenvalue, and never reads the lower triangle.",
  ['inputs'], 'all symmetric matrices and right-hand sides of the bounded sizes, static and dynamic',
  'Tests solve a few random positive-definite systems.',
  ['include/tinyopt/math.h'], [('dense LDLT solve', 'include/tinyopt/math.h: SolveLDLT')], ['returned optional vector'])

p('C09', 'Dense covariance inversion returns true inverses only',
  "Inverting a dense symmetric matrix given by its upper triangle returns a symmetric matrix whose product with the input is the identity, for every positive-definite input. It returns nothing, rather than a wrong matrix, for every singular or indefinite input of dimension two or more; a column of variances gives the diagonal matrix of their inverses.",
  ['inputs'], 'all symmetric matrices of the bounded sizes, static, dynamic and sub-blocks',
  'Tests invert a few fixed well-conditioned matrices.',
  ['include/tinyopt/math.h'], [('dense inverse', 'include/tinyopt/math.h: DenseInvCov, InvCov')], ['returned optional matrix'])

p('C10', 'Sparse solve and inverse agree with the dense mathematics',
  "For a sparse symmetric matrix stored in its upper triangle or fully, the sparse solve returns a vector that solves the system and the sparse inverse a matrix whose product with the input is the identity, for every positive-definite input; a matrix that cannot be factorised gives no result, and one that is not positive no solution. The maximum absolute difference of two sparse matrices equals that of their dense counterparts, whatever their sparsity patterns.",
  ['inputs'], 'all values for every sparsity pattern of the bounded sizes',
  'Tests use one diagonal or banded pattern each.',
  ['include/tinyopt/math.h'], [('sparse solve', 'include/tinyopt/math.h: SolveLDLT(SparseMatrix)'), ('sparse inverse', 'include/tinyopt/math.h: SparseInvCov'), ('difference', 'include/tinyopt/math.h: MaxAbsDiff')], ['returned optional vector or matrix'])

p('C11', 'A Gauss-Newton step solves the normal equations it was given',
  "After a successful build from a positive-definite Hessian, the step returned by the Gauss-Newton solver satisfies H*dx = -g for exactly the gradient and Hessian the user filled in, whether the Hessian is filled fully or only in its upper triangle and whether factorisation or inversion is selected. A build whose diagonal has an entry below the configured minimum fails, and the stored gradient and Hessian are cleared before every build.",
  ['inputs', 'configurations'], 'all gradients and Hessians, all option combinations, static, dynamic and sparse',
  'Tests run whole optimisations with default options; a wrong triangle or stale accumulation shows up only in specific option combinations.',
  ['include/tinyopt/solvers/gn.h', 'include/tinyopt/math.h'], [('build', 'include/tinyopt/solvers/gn.h: SolverGN::Build'), ('solve', 'include/tinyopt/solvers/gn.h: SolverGN::Solve')], ['solver Build/Solve results', 'Hessian()', 'Gradient()'])

p('C12', 'A gradient-descent step is minus the learning rate times the gradient',
  "The step of the gradient-descent solver equals minus the learning rate times the (clipped) gradient the user filled in for the current parameters, the gradient being zeroed before each evaluation. Every iteration of a gradient-descent run whose step is accepted therefore moves the parameters by exactly that amount, and no step is produced from an evaluation without residuals.",
  ['inputs', 'configurations'], 'all gradients, learning rates and costs; scalar, static and dynamic parameters',
  'Tests check convergence of one quadratic, where a wrong factor or sign is often masked by the number of iterations.',
  ['include/tinyopt/solvers/gd.h'], [('step', 'include/tinyopt/solvers/gd.h: SolverGD::Solve'), ('build', 'include/tinyopt/solvers/gd.h: SolverGD::Build')], ['Solve()', 'x after iterations'])

p('C13', 'Levenberg-Marquardt damping follows its schedule and stays in range',
  "Starting from the initial damping, every accepted step multiplies the damping by the good factor (or the larger quality-based factor when step quality is used, divided by the accumulated bad factor right after rejections) and every rejected or failed step multiplies it by a bad factor that grows geometrically with consecutive rejections and is reset by an accepted step. The result is always clamped to the configured range, and resetting the solver restores the initial state; with an initial damping of zero damping stays disabled.",
  ['inputs', 'histories', 'configurations'], 'all sequences of good/bad/failed steps of bounded length, all factors, ranges and qualities',
  'The damping value is internal: tests see only convergence, which a wrong schedule slows down but rarely breaks.',
  ['include/tinyopt/solvers/lm.h', 'include/tinyopt/optimizers/options.h'], [('schedule', 'include/tinyopt/solvers/lm.h: GoodStep, BadStep, FailedStep, reset')], ['damped diagonal of the system after Build', 'step returned by Solve()'])

p('C14', 'A Levenberg-Marquardt step solves the damped system; reports stay undamped',
  "The step solves (H + lambda*diag(H))*dx = -g for the user's gradient and Hessian and the current damping, including after evaluations that only recompute the cost and keep the previous system. The Hessian reported by the solver and saved in the output is the user's Hessian without any damping, also when the run stops at its first iteration or after failures.",
  ['inputs', 'histories', 'configurations'], 'all Hessians, gradients and dampings; all short sequences of rebuilt and cost-only evaluations',
  'Tests compare covariances loosely with a tiny damping, so damping left in the Hessian is invisible.',
  ['include/tinyopt/solvers/lm.h', OPT], [('damping of the diagonal', 'include/tinyopt/solvers/lm.h: SolverLM::Build'), ('undamped Hessian', 'include/tinyopt/solvers/lm.h: SolverLM::Hessian')], ['Solve()', 'Hessian()', 'Output::final_hessian'])

p('C15', 'Gradient clipping and cost scaling do what the options say',
  "With clipping at v>0 every gradient component is replaced by its projection on [-v,v] and with v=0 nothing changes, for every solver. The cost reported for an evaluation is the user's cost with, in this order, the square root taken if the plain norm is asked for, halved if down-scaling is on, and divided by the number of residuals if normalisation is on.",
  ['inputs', 'configurations'], 'all gradients, clip values, costs, residual counts and option combinations, for each solver',
  'Tests never set these options together; most leave them at their defaults.',
  ['include/tinyopt/solvers/base.h'], [('clipping', 'include/tinyopt/solvers/base.h: SolverBase::Clamp'), ('cost scaling', 'include/tinyopt/solvers/base.h: SolverBase::NormalizeCost')], ['Gradient()', 'cost()', 'Output::errs', 'Output::final_cost'])

p('C16', 'Automatic-differentiation numbers carry exact derivatives',
  "For every arithmetic operator, compound assignment and elementary function on differentiation numbers, the value equals the plain function's value and the derivative part equals the chain rule applied to the derivative parts of the arguments, at every point where the function is differentiable. Comparisons depend on the values only, and mixed operations with plain scalars treat them as constants.",
  ['inputs'], 'all values and derivative parts, static and dynamic derivative length',
  'Tests differentiate a few composite functions at single points.',
  ['include/tinyopt/3rdparty/ceres/jet.h', 'include/tinyopt/diff/jet.h'], [('derivative rules', 'include/tinyopt/3rdparty/ceres/jet.h: Jet operators and functions')], ['value and derivative part of the result'])

p('C17', 'Automatic differentiation yields exact Jacobians, gradients and Hessians',
  "For residuals that are polynomial in the parameters, the Jacobian returned by automatic differentiation has at (i,j) the derivative of residual i with respect to parameter j in storage order, and the residuals are unchanged. Optimising such residuals directly uses gradient J^T*r, Hessian J^T*J and cost r^T*r with the right number of residuals (for gradient descent on a scalar residual r, the gradient r*dr of r^2/2 and the cost r), re-evaluated at the current parameters in every iteration, for scalar, vector, matrix and user-defined parameters.",
  ['inputs', 'programs'], 'all parameter values and residual coefficients for bounded shapes of parameters and residuals',
  'Tests compare with numerical derivatives at random points for a few shapes.',
  ['include/tinyopt/diff/auto_diff.h', 'include/tinyopt/diff/optimize_autodiff.h', 'include/tinyopt/traits.h'], [('Jacobian extraction', 'include/tinyopt/diff/auto_diff.h: Eval'), ('normal equations', 'include/tinyopt/diff/optimize_autodiff.h: OptimizeWithAutoDiff')], ['Eval, CalculateJac results', 'step and outputs of one iteration'])

p('C18', 'Numerical differentiation implements its three difference formulas',
  "Each column of a numerically estimated Jacobian is the forward, central or fast-central difference quotient of the function with the given step in that one parameter, hence exact for affine functions and, for the central variants, for quadratic ones; the residual returned is the function at the unmodified point and the point is not changed. The cost functions built from it return gradient J^T*r and Hessian J^T*J for that Jacobian together with the norm and the number of residuals.",
  ['inputs', 'programs'], 'all points, steps and polynomial coefficients for bounded shapes',
  'Tests compare with analytic derivatives using a tolerance that hides a wrong step or variant.',
  ['include/tinyopt/diff/num_diff.h'], [('difference quotients', 'include/tinyopt/diff/num_diff.h: NumEval, EstimateNumJac'), ('cost functions', 'include/tinyopt/diff/num_diff.h: CreateNumDiffFunc1, CreateNumDiffFunc2')], ['returned Jacobian, residuals, gradient, Hessian, cost'])

p('C19', 'The gradient checker accepts right gradients and rejects wrong ones',
  "For a quadratic cost, the gradient checker returns true exactly when every component of the supplied gradient is within the tolerance of the true one, in every component position. The residual variant does the same for the (optionally halved) squared norm of the residuals and additionally compares the supplied Hessian with J^T*J in every entry when asked to.",
  ['inputs', 'programs'], 'all points, cost coefficients, gradient errors and tolerances for bounded sizes',
  'Tests only call the checker with correct gradients, so a checker that always says yes passes.',
  ['include/tinyopt/diff/gradient_check.h', 'include/tinyopt/diff/num_diff.h', 'include/tinyopt/math.h'], [('verdict', 'include/tinyopt/diff/gradient_check.h: CheckGradient, CheckResidualsGradient')], ['returned bool'])

p('C20', 'Norms return the right value and the right Jacobian',
  "The squared L2, L2, L1 and L-infinity norms of any vector or scalar return the mathematical value, and when a Jacobian is requested it is the derivative of that value at every point where it exists, with or without the factor two where that is selectable. Passing the Jacobian of the argument returns the product with it.",
  ['inputs'], 'all vectors of the bounded sizes (static and dynamic) and all scalars',
  'Tests compare with automatic differentiation at one random point, where signs and ties are not exercised.',
  ['include/tinyopt/losses/norms.h'], [('norms', 'include/tinyopt/losses/norms.h: SquaredL2, L2, L1, Linf')], ['returned value and Jacobian'])

p('C21', 'Robust losses match their formulas on both sides of the threshold',
  "The truncated, Huber, Tukey, arctan, Cauchy, Geman-McClure and Blake-Zisserman losses return the documented function of the squared norm on each side of the threshold, and the returned scale is the derivative of that function, or its product with the supplied Jacobian. Value and, except for hard truncation, scale agree at the threshold, the scale is never negative, and the truncated, Huber, arctan, Cauchy and Blake-Zisserman losses grow no faster than the squared norm.",
  ['inputs'], 'all squared norms, positive thresholds and Jacobians',
  'Tests evaluate a few points per loss on one side of the threshold.',
  ['include/tinyopt/losses/robust_norms.h', 'include/tinyopt/losses/norms.h'], [('losses', 'include/tinyopt/losses/robust_norms.h')], ['returned loss and scale / Jacobian'])

p('C22', 'Activations and softmax return the right values and Jacobians',
  "Sigmoid, tanh, ReLU, leaky ReLU, softmax and safe softmax of a vector return the documented values, and the Jacobian returned is their exact derivative, multiplied by the argument's Jacobian when one is passed. Softmax outputs are positive and sum to one, and the safe variant returns the same values as the plain one.",
  ['inputs'], 'all vectors of the bounded sizes',
  'Tests compare at one random vector.',
  ['include/tinyopt/losses/activations.h', 'include/tinyopt/losses/helpers.h', 'include/tinyopt/losses/classif.h'], [('activations', 'include/tinyopt/losses/activations.h'), ('softmax', 'include/tinyopt/losses/classif.h')], ['returned value and Jacobian'])

p('C23', 'Mahalanobis norms and whitening are consistent with the covariance',
  "The squared Mahalanobis norm equals x^T*C^-1*x for a covariance matrix, for a vector of variances and for a scalar variance, the plain norm is its square root, and a matrix that is not invertible is rejected. Whitened residuals have the same squared norm, and every Jacobian returned is the derivative of the value returned.",
  ['inputs'], 'all residuals and positive-definite covariances of the bounded sizes',
  'Tests use random well-conditioned covariances and compare a few entries.',
  ['include/tinyopt/losses/mahalanobis.h', 'include/tinyopt/math.h'], [('norms', 'include/tinyopt/losses/mahalanobis.h: MahaSquaredNorm, MahaNorm'), ('whitening', 'include/tinyopt/losses/mahalanobis.h: MahaWhitened, MahaWhitenedInfoU')], ['returned value and Jacobian'])

p('C24', 'Distances are symmetric, correct and differentiate both arguments',
  "The Euclidean, Manhattan, L-infinity and Mahalanobis distances of two points equal the corresponding norm of their difference, and the two Jacobians returned are the derivatives with respect to the first and the second argument. The cosine of two vectors is their normalised dot product with the matching pair of derivatives.",
  ['inputs'], 'all pairs of vectors of the bounded sizes and pairs of scalars',
  'Tests compare with numerical differentiation at one random pair; the cosine is never instantiated.',
  ['include/tinyopt/distances.h'], [('distances', 'include/tinyopt/distances.h')], ['returned distance and Jacobians'])

p('C25', 'Parameter updates touch exactly the right component of any container',
  "For scalars, vectors, matrices, and (nested) std::vector, std::array and std::pair of these, the number of dimensions is the total number of scalar components, and adding a delta adds component k of the delta to component k of the parameters in storage order and changes nothing else. Casting converts every component and keeps the layout.",
  ['inputs', 'programs'], 'all values and deltas for bounded shapes, including elements of different run-time sizes',
  'Tests cover vectors and one user type; nested and mixed-size containers are only compiled.',
  ['include/tinyopt/traits.h', 'include/tinyopt/diff/jet_traits.h'], [('parameter traits', 'include/tinyopt/traits.h: params_trait::PlusEq, dims, cast')], ['parameters after the update', 'dims'])

p('C26', 'Costs accumulate values, residual and inlier counts exactly',
  "A cost built from a residual vector or matrix is its squared norm with its number of entries as residual count, and adding costs or residual blocks adds the values, the residual counts and the inlier counts. A cost is valid exactly when it has residuals and is not the 'no cost yet' sentinel, and comparisons and conversions use the value only.",
  ['inputs', 'histories'], 'all residuals and all short sequences of accumulations',
  'Tests add two costs with all inliers.',
  ['include/tinyopt/cost.h'], [('accumulation', 'include/tinyopt/cost.h: Cost::operator+=, AddResiduals, NumInliers')], ['cost', 'number of residuals', 'number of inliers'])

p('C27', 'Reported Hessian and covariance describe the last system solved',
  "When saving is enabled, a second-order run reports the (undamped) Hessian the user's function filled in at the last built evaluation, dense or sparse like the problem, and reports none when saving is disabled or the method is first order. The covariance reported is its inverse, scaled by final_cost^2/(residuals - dimensions) when rescaling is requested and there are more residuals than dimensions, and is absent when the Hessian (of two parameters or more) is singular or was not saved; the largest standard deviation is the square root of the largest covariance entry.",
  ['inputs', 'configurations'], 'all Hessians, costs and residual counts; all option combinations',
  'Tests compare one covariance with an expected value and never ask for rescaling.',
  [OPT, 'include/tinyopt/output.h', 'include/tinyopt/solvers/gn.h', 'include/tinyopt/solvers/lm.h'], [('saving', OPT + ': Optimizer_::OptimizeAcc'), ('covariance', 'include/tinyopt/output.h: Output::Covariance')], ['Output::final_hessian', 'Output::Covariance()', 'Output::num_residuals', 'MaxStdDev()'])

p('C28', 'The simple interface runs the solver and differentiation asked for',
  "Optimising through the simple interface gives the same parameters, costs and stop reason as running the selected solver's optimiser directly, for user-supplied derivatives and for automatic differentiation, and numerical differentiation is used, and reported as used, exactly when the function cannot be evaluated on differentiation numbers. A solver that cannot handle the given kind of function is rejected with an invalid-argument error.",
  ['inputs', 'configurations', 'programs'], 'all parameter values and problem coefficients for each solver type and each kind of function, one to two iterations',
  'Tests call the interface with the default solver and look at convergence only.',
  ['include/tinyopt/optimize.h', OPT], [('dispatch', 'include/tinyopt/optimize.h: Optimize'), ('differentiation choice', OPT + ': Optimizer_::Optimize')], ['x after the call', 'Output fields', 'exceptions'])

p('C29', 'Re-using an optimiser after a reset behaves like a new one',
  "After a reset, running an optimiser again produces the same iterates, costs, steps and stop reason as a newly constructed optimiser with the same options, whatever the previous run did, including after failures and for another number of dynamic parameters. Options given at construction are never changed by a run.",
  ['inputs', 'histories'], 'all pairs (previous bounded run, new bounded run)',
  'No test runs the same optimiser object twice.',
  [OPT, 'include/tinyopt/solvers/lm.h', 'include/tinyopt/solvers/gn.h', 'include/tinyopt/solvers/gd.h'], [('reset', OPT + ': Optimizer_::reset'), ('solver state', 'include/tinyopt/solvers/lm.h: SolverLM::reset')], ['x after the call', 'Output fields'])

p('C30', 'Static, dynamic and sparse formulations of a problem give the same run',
  "The same problem given with statically sized, dynamically sized or sparse parameters and (non-singular) Hessians produces the same steps, costs, iterates, stop reason and reported Hessian. The same holds for a Hessian filled in its upper triangle only and for scalar parameters versus one-element vectors.",
  ['inputs', 'programs'], 'all gradients, non-singular Hessians and costs of the bounded size, one to two iterations, Gauss-Newton and Levenberg-Marquardt',
  'Each test uses one representation; no test compares two.',
  [OPT, 'include/tinyopt/solvers/gn.h', 'include/tinyopt/solvers/lm.h', 'include/tinyopt/math.h'], [('representation-specific code', 'include/tinyopt/solvers/gn.h and lm.h: resize, Build, Solve')], ['x after the call', 'Output fields'])

p('C31', 'Linear least squares is solved exactly in one Gauss-Newton iteration',
  "For any linear residual A*x - b with A of full column rank, from any start, one accepted Gauss-Newton iteration moves the parameters to the least-squares solution, and a run reports the squared residual there as final cost (its norm with numerical derivatives) and stops as converged. The same holds whether derivatives are supplied, automatic or numerical.",
  ['inputs', 'programs'], 'all A, b and starting points of the bounded sizes',
  'Tests solve single fixed instances with many iterations, so an inexact step still converges.',
  [OPT, 'include/tinyopt/solvers/gn.h', 'include/tinyopt/diff/optimize_autodiff.h', 'include/tinyopt/diff/num_diff.h'], [('whole pipeline', 'include/tinyopt/optimize.h: Optimize')], ['x after the call', 'Output::final_cost', 'Output::stop_reason'])

p('C32', 'Logging never changes the result of a run',
  "Turning logging on, with any combination of the printing options, leaves the iterates, costs, histories, stop reason and reported Hessian identical to a silent run and introduces no exception. This includes runs whose system is singular or whose evaluations fail.",
  ['inputs', 'configurations', 'histories'], 'all printing-option combinations and all cost/gradient/Hessian sequences within bounded runs',
  'Tests run either silent or verbose, never both on the same problem, and never with a singular system.',
  [OPT, 'include/tinyopt/solvers/gn.h', 'include/tinyopt/solvers/lm.h'], [('log blocks', OPT + ': Optimizer_::Step'), ('values computed for logging only', 'include/tinyopt/solvers/gn.h: MaxStdDev, stateAsString')], ['Output fields', 'exceptions'])

p('C33', 'Lie-group parameters are updated on their manifold',
  "For rotation and pose types of the supported Lie-group libraries the update applies the exponential map on the documented side, so the parameters stay on the manifold and numerical and automatic derivatives refer to the same tangent space.",
  ['inputs'], 'all poses and tangent vectors',
  'The tests for these types need the external libraries and a fixed pose.',
  ['include/tinyopt/3rdparty/traits/sophus.h', 'include/tinyopt/3rdparty/traits/lieplusplus.h'], [('manifold update', 'include/tinyopt/3rdparty/traits/sophus.h')], ['parameters after the update'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=True) + '\n')
print(len(P), 'properties')
