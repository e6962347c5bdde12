E2E = 'bounded-exhaustive execution of the implementation'
prop('C01', 'A success report is a true first-order solution',
     'Whenever an optimisation reports success, the returned point is feasible for bounds and constraints and first-order '
     'stationary for the stated problem (with multipliers of admissible sign) within a small multiple of the requested tolerances.',
     ['inputs', 'configurations'], 'every problem, start point and option set',
     'The tests compare a handful of solved problems with stored numbers; a stopping test that fires too early on another '
     'curvature/bound/constraint combination goes unseen.',
     ['sqpdfo_main.py', 'sqpdfo_optimality.py', 'sqpdfo_compute_multiplier.py', 'sqpdfo.py'],
     [('stopping tests', 'sqpdfo_main_: immediate and after-improvement tests'), ('optimality measures', 'sqpdfo_optimality_'),
      ('removal of slacks', 'sqpdfo.optimize')],
     E2E + ' over a problem lattice, first-order oracle with exact derivatives', 'exploration',
     'Every problem of the finite lattice is solved by the real code; the verdict uses exact derivatives. Problems outside the '
     'lattice are not covered. One algorithmic finding is listed.', observe=['optimize() return values'])
prop('C02', 'Strictly convex problems are solved from every start',
     'A strictly convex quadratic problem with bounds and consistent linear equality constraints (gradients of the constraints '
     'and of the bounds active at the solution linearly independent) is solved to its unique '
     'minimiser, with a success report, from every starting point when no budget interferes.',
     ['inputs', 'configurations'], 'every strictly convex quadratic, bound box, consistent linear equalities, start',
     'The tests solve a few named problems from one start each.',
     ['sqpdfo_main.py', 'sqpdfo_solve_TR_bc.py', 'bcdfo_solve_TR_MS_bc.py', 'sqpdfo_prelim.py'],
     [('SQP iteration', 'sqpdfo_main_'), ('trial steps', 'sqpdfo_solve_TR_bc_'), ('initial set', 'sqpdfo_prelim_')],
     E2E + ' over a lattice of convex QPs, active-set enumeration as oracle', 'exploration',
     'The exact minimiser is computed by enumerating every active set; claim excludes mixed inequality/bound activity, where '
     'squared slacks may stall (see C01 finding).')
prop('C03', 'The returned record describes one evaluated point',
     'The returned point is one of the points at which the user functions were evaluated, and the returned function value, '
     'constraint values and counters are exactly those of that point and of the calls made.',
     ['inputs', 'configurations', 'histories'], 'every problem, option set and way of ending',
     'Tests look at the final x of successful runs only; ends by budget or stall and the other fields are unchecked.',
     ['sqpdfo.py', 'sqpdfo_main.py', 'sqpdfo_evalfgh.py', 'sqpdfo_finish.py'],
     [('best-point bookkeeping', 'sqpdfo_main_ / sqpdfo_find_smallf_'), ('result assembly', 'sqpdfo.optimize')],
     E2E + ' with a complete evaluation log as oracle', 'exploration',
     'Every case of the lattice is compared with a log of all user-function calls.')
prop('C04', 'Budgets only truncate the run',
     'An evaluation or iteration limit does not change anything before it takes effect: the evaluations made are a prefix of '
     'those of the unlimited run, the limit is honoured, and the status says which limit ended the run.',
     ['crash_points', 'configurations'], 'every value of every limit for every run',
     'Tests use limits that never bind, so no truncation point is exercised.',
     ['sqpdfo_main.py', 'sqpdfo_options.py', 'sqpdfo_prelim.py'],
     [('limit tests', 'sqpdfo_main_'), ('option handling', 'sqpdfo_options_')],
     'exhaustive enumeration of cut points (every limit) of recorded runs', 'fault_enumeration',
     'Every cut point up to the stated number of evaluations/iterations of each listed run is executed.')
prop('C05', 'A failing user function is contained',
     'If the user functions raise, or return NaN or infinities, at any evaluation, the optimisation still returns normally '
     'with a failure (or ordinary) status, makes no further evaluation after a fatal failure, and never reports the failed '
     'point as success. Constraint values that are infinite (or beyond 1e25) count as bad values of the same sign: success is '
     'never reported at a point that violates a constraint infinitely.',
     ['fault_sequences', 'crash_points'], 'every evaluation number and every kind of failure',
     'No test makes the user function fail.',
     ['sqpdfo_func.py', 'sqpdfo_evalfgh.py', 'sqpdfo_augmX_evalf.py', 'sqpdfo_main.py'],
     [('fault containment', 'sqpdfo_func_'), ('status propagation', 'sqpdfo_augmX_evalf_ / sqpdfo_main_')],
     'exhaustive fault injection at every evaluation of recorded runs', 'fault_enumeration',
     'Every evaluation number up to the bound x every fault kind is executed on each listed problem.')
prop('C06', 'An optimisation is independent of earlier calls',
     'The outcome of an optimisation depends only on its arguments: any sequence of earlier calls in the same process, '
     'successful, refused, failing or cut short, leaves the outcome of the next call unchanged.',
     ['histories'], 'every sequence of earlier calls',
     'Each test runs in whatever process state it finds and never compares call orders.',
     ['sqpdfo_global_variables.py', 'sqpdfo.py', 'sqpdfo_prelim.py'],
     [('process-global state', 'sqpdfo_global_variables and its setters'), ('reset at entry', 'sqpdfo.optimize')],
     'explicit-state exploration of all call sequences up to a depth on the real code', 'model_checking',
     'All call sequences over the alphabet to the depth are executed, each outcome compared with the pristine-process outcome.',
     state=[('globals', 'library state surviving a call', 'sqpdfo_global_variables')])
prop('C09', 'Verbosity only prints; history and printout are truthful',
     'The verbosity level changes nothing but what is printed: evaluations and results are identical at every level. The '
     'history file, the printed table and the summary are well formed and agree with each other, the evaluations and the returned result.',
     ['configurations', 'inputs'], 'every verbosity level on every problem and way of ending',
     'Tests run silently or ignore the output.',
     ['sqpdfo_iter_printout.py', 'sqpdfo_finish.py', 'sqpdfo_main.py', 'sqpdfo_prelim.py'],
     [('printing', 'sqpdfo_iter_printout_ / sqpdfo_finish_'), ('history file', 'sqpdfo_iter_printout_')],
     E2E + ' at all verbosity levels, differential and log oracle', 'exploration',
     'Bitwise comparison of all levels on each listed problem; the texts are parsed.')
prop('C07', 'Invalid requests are refused unevaluated; arguments stay untouched',
     'A request that is incomplete, contradictory or carries an invalid option value is refused with a failure status, without '
     'raising and without evaluating any user function. No call, refused or not, modifies the start point, bounds or options '
     'object the caller passed. A constraint function that returns another number of values than stated ends the run with a failure '
     'status right after the initial evaluations.',
     ['inputs', 'configurations'], 'every kind of defect in every argument of every problem shape, at every verbosity',
     'Tests pass valid arguments and never compare them afterwards.',
     ['sqpdfo.py', 'sqpdfo_options.py', 'sqpdfo_prelim.py', 'sqpdfo_global_variables.py'],
     [('argument checks', 'sqpdfo.optimize'), ('option checks', 'sqpdfo_options_'), ('bound checks', 'sqpdfo_prelim_')],
     E2E + ': all single defects and pairs of defects', 'exploration',
     'All listed defects x shapes x verbosities are executed; what counts as invalid follows documentation and option table.')
prop('C08', 'Equivalent formulations give identical runs',
     'Start point and bounds may be given in any vector container or number type, functions as any callable with any '
     'equivalent return container, options in any documented spelling and any kind of object or left at their default: the run is bit-identical.',
     ['inputs', 'configurations'], 'every equivalent formulation of every problem',
     'Each test uses one container and one spelling and none compares runs.',
     ['sqpdfo.py', 'sqpdfo_options.py', 'sqpdfo_func.py', 'sqpdfo_global_variables.py'],
     [('normalisation of arguments', 'sqpdfo.optimize'), ('defaults and spellings', 'sqpdfo_options_'), ('calls of user functions', 'sqpdfo_func_')],
     E2E + ', differential against the plain formulation', 'exploration',
     'Every listed re-formulation is run on every problem shape and compared bit for bit.')
prop('C10', 'Bounds hold for the initial set and every returned point',
     'Whatever the start point, the initial interpolation set lies within the bounds and is non-degenerate, and the point '
     'returned satisfies the bounds up to the bound tolerance no matter when or why the run ends.',
     ['inputs', 'crash_points'], 'every bounded problem, start point and cut of the run',
     'Tests use a few boxes and look only at the final point.',
     ['sqpdfo_prelim.py', 'sqpdfo_solve_TR_bc.py', 'bcdfo_solve_TR_MS_bc.py', 'sqpdfo_main.py', 'sqpdfo_find_smallf.py'],
     [('moving the start inside', 'sqpdfo_prelim_'), ('projection of trial steps', 'sqpdfo_solve_TR_bc_')],
     E2E + ' with every evaluation cut', 'exploration',
     'Every box/start/objective/constraint combination of the lattice; cut enumeration exposes all intermediate best points.')
prop('C11', 'Any sequence of black-box answers leaves the run sane',
     'For every sequence of finite answers of the user functions, the optimisation returns normally within its budgets with a '
     'documented status, an evaluated point that respects the bounds, the values answered at that point, finite multipliers, '
     'and, without constraints, a value no worse than at the first point.',
     ['fault_sequences', 'histories'], 'every answer sequence of the environment',
     'Tests use a few smooth functions; adversarial answer sequences are never produced.',
     ['sqpdfo_main.py', 'sqpdfo_prelim.py', 'sqpdfo_solve_TR_bc.py', 'sqpdfo_augmX_evalf.py'],
     [('main loop', 'sqpdfo_main_'), ('trial steps', 'sqpdfo_solve_TR_bc_')],
     'exhaustive exploration of environment answer sequences up to a depth on the real code', 'exploration',
     'All answer sequences over the alphabets up to the depth are executed on the real solver.')
prop('C12', 'Smooth strictly convex problems are solved from every start',
     'A smooth strictly convex problem that need not be quadratic, with bounds or with linear equality constraints, is solved to '
     'its unique minimiser, with a success report, from every starting point and with every interpolation model kind with '
     'second-order terms (underdetermined, minimum-norm, Frobenius, regression; diagonal or full quadratic) when no budget interferes. With bounds and '
     'linear equality constraints together it may report failure (status 15), but a success report is given at the minimiser only.',
     ['inputs', 'configurations'], 'every smooth strictly convex objective, bound box or linear equality, start, model kind',
     'The tests solve a few named problems from one start each, with default models.',
     ['sqpdfo_main.py', 'sqpdfo_solve_TR_bc.py', 'bcdfo_solve_TR_MS_bc.py', 'sqpdfo_augmX_evalf.py', 'bcdfo_computeP.py'],
     [('SQP iteration, criticality and radius', 'sqpdfo_main_'), ('trial steps', 'bcdfo_solve_TR_MS_bc_'), ('models', 'bcdfo_computeP_')],
     E2E + ' over a lattice of non-quadratic convex problems; Newton on every enumerated bound face as oracle', 'exploration',
     'The minimiser is computed independently on every face of the box. Equalities together with bounds are left to C02 (runs may '
     'end with status 15 there, never with a wrong success).')
prop('C13', 'Models, iterate and trial steps rest on genuine, current data',
     'Throughout every run, each point from which a model is built is a point at which the user functions have exactly the values '
     'used for it; the iterate is the centre of the current set; the constraint values, slacks, model gradients and curvature from which '
     'a trial step is computed are those of the iterate and of the current models; trial points respect bounds and radius; without constraints '
     'the iterate never gets worse.',
     ['inputs', 'configurations', 'histories'], 'every reachable state of every run: problem, option set, iteration',
     'The tests look at final results; a stale value in a rarely taken branch of the iteration only costs evaluations or ends '
     'somewhere else on some problems.',
     ['sqpdfo_main.py', 'sqpdfo_prelim.py', 'sqpdfo_find_smallf.py', 'sqpdfo_swap_in_Y.py', 'sqpdfo_augmX_evalf.py', 'sqpdfo_computeHessian.py'],
     [('all branches that change the set', 'sqpdfo_main_'), ('exchange of points', 'sqpdfo_swap_in_Y_ / sqpdfo_find_smallf_')],
     'exhaustive enumeration of runs of a problem lattice with monitors on every model and step computation; problem definition and '
     'independent interpolation as oracle', 'exploration',
     'Every observed state of every listed run is judged; the state and transition counts are in the evidence.')
prop('C14', 'Merit descends, the penalty suffices, only success enlarges the radius',
     'In every iteration of every run the penalty parameter does not decrease and is large enough for the step to promise progress; a trial '
     'point is accepted only when value plus penalty times constraint violation (slacks included) really decreases by a fraction of the '
     'prediction, and then becomes the iterate; after a rejection the iterate stays and the radius does not grow (it shrinks when the model stays the same), unless a better interpolation '
     'point is found; so at a fixed penalty the merit of the iterate never increases, and the value handed on is that of the iterate.',
     ['inputs', 'configurations', 'histories'], 'every iteration of every run, as a transition of the trust-region automaton',
     'The tests look at final results; a step compared with a stale merit, or accepted on a wrong prediction, still ends near the solution '
     'of the handful of test problems.',
     ['sqpdfo_main.py', 'sqpdfo_find_smallf.py', 'sqpdfo_solve_TR_bc.py'],
     [('acceptance, radius and penalty update', 'sqpdfo_main_'), ('better interpolation points', 'sqpdfo_find_smallf_')],
     'exhaustive enumeration of runs of a problem lattice; every transition (iterate, radius, slacks, penalty) of the real iteration is judged '
     'against the user functions themselves', 'exploration',
     'Every observed transition of every listed run is judged; transitions, accepted and rejected steps are counted in the evidence.')
prop('C33', 'Fixed variables equal substitution by hand',
     'A variable whose bounds coincide is never moved, and the optimisation of the remaining variables is the one of the '
     'problem with that constant substituted: same evaluations, status, value and multipliers.',
     ['inputs', 'configurations'], 'every set of fixed variables and values on every problem and way of ending',
     'No test fixes a variable.',
     ['sqpdfo.py', 'sqpdfo_prelim.py'], [('elimination of fixed variables', 'sqpdfo.optimize')],
     E2E + ', differential against the substituted problem', 'exploration',
     'All proper subsets and values of the alphabet on all lattice problems.')
UNIT = 'bounded-exhaustive enumeration of inputs of the implementation'
prop('C20', 'Interpolation-set operations do exactly what they say',
     'Adding, replacing, swapping and including points in the interpolation set change exactly the intended members, keep all '
     'points, values and the factorisation consistent with one another after any sequence of operations, and choose the point to '
     'replace by the stated criterion.',
     ['histories', 'inputs'], 'every sequence of set operations',
     'Tests call each operation once on one small set; sequences and the bookkeeping after swaps are not compared with a model.',
     ['bcdfo_augment_Y.py', 'bcdfo_replace_in_Y.py', 'bcdfo_include_in_Y.py', 'sqpdfo_swap_in_Y.py', 'bcdfo_build_QR_of_Y.py'],
     [('set operations', 'bcdfo_augment_Y_, bcdfo_replace_in_Y_, bcdfo_include_in_Y_, sqpdfo_swap_in_Y_')],
     'explicit-state breadth-first exploration of operation sequences on the real code against a list model', 'model_checking',
     'Every transition of the model is executed by the real code and compared.',
     state=[('set', 'ordered point identities with their values', 'Y, X, fX, ind_Y, QZ, RZ')])
prop('C21', 'Models and Lagrange polynomials interpolate the point set',
     'For every set of points that determines it and every kind of model, the model interpolates (or fits by regression) the given '
     'values with the documented minimality, its gradient and Hessian are those of that polynomial, and the Lagrange '
     'polynomials are one at their point and zero at the others.',
     ['inputs', 'configurations'], 'every determined point set, kind of model, centre, offset and unit',
     'Tests check a few sets of one kind at unit scale.',
     ['bcdfo_build_QR_of_Y.py', 'bcdfo_computeP.py', 'bcdfo_computeLj.py', 'bcdfo_evalL.py', 'bcdfo_evalP.py', 'bcdfo_evalZ.py',
      'bcdfo_gradP.py', 'bcdfo_hessP.py'],
     [('factorisation and models', 'bcdfo_build_QR_of_Y_ / bcdfo_computeP_'), ('Lagrange polynomials', 'bcdfo_computeLj_ / bcdfo_evalL_')],
     UNIT + ', independent fit in exact monomials as oracle', 'exploration', 'All sets of the grids are executed.')
prop('C22', 'Set geometry is measured correctly',
     'For every determined set, the proposed replacement of a point lies in the ball around the centre and attains the largest '
     'absolute value of that point\'s Lagrange polynomial there, the value reported is that value, and the poisedness of the set is '
     'the largest of these values.',
     ['inputs'], 'every determined set, index and radius',
     'Tests check one or two sets against stored numbers.',
     ['bcdfo_find_new_yj.py', 'bcdfo_poisedness_Y.py', 'bcdfo_solve_TR_MS.py'],
     [('maximisation of a Lagrange polynomial', 'bcdfo_find_new_yj_'), ('poisedness', 'bcdfo_poisedness_Y_')],
     UNIT + ', exact global maxima as oracle', 'exploration', 'All sets of the grids x indices x radii are executed.')
prop('C23', 'Repairing the interpolation set yields a good set',
     'Repairing an interpolation set never moves its centre, replaces far or badly placed points only, reports exactly which were '
     'replaced, keeps replacements within the given radius, and ends with a set whose poisedness is below the threshold '
     'and correctly reported (unless its loop limit is hit).',
     ['inputs'], 'every set, radius and threshold',
     'The test repairs one set.',
     ['bcdfo_repair_Y.py', 'bcdfo_find_new_yj.py', 'bcdfo_replace_in_Y.py'],
     [('far-point and improvement loops', 'bcdfo_repair_Y_')],
     UNIT + ', exact Lagrange maxima as oracle', 'exploration', 'All listed sets x radii x thresholds are executed.')
prop('C24', 'Trust-region subproblems are solved to global optimality',
     'The step of the trust-region solver is a global minimiser of the quadratic in the ball to the accuracy asked for, for every '
     'curvature including hard cases, with consistent multiplier, norm, value and gradient. The bound-constrained variant stays '
     'within bounds and ball, never increases the quadratic, and is exact where no bound matters.',
     ['inputs'], 'every symmetric matrix, gradient, radius, accuracy and bound pattern',
     'Tests use a few matrices with stored solutions.',
     ['bcdfo_solve_TR_MS.py', 'bcdfo_solve_TR_MS_bc.py'],
     [('ball subproblem', 'bcdfo_solve_TR_MS_'), ('ball and bounds', 'bcdfo_solve_TR_MS_bc_')],
     UNIT + ', eigenvalue-based global solution as oracle', 'exploration', 'All matrices and gradients of the alphabets are executed.')
prop('C26', 'Multipliers and optimality measures are right',
     'Bounded least squares returns a true minimiser with its reported residuals. The multipliers have admissible signs, vanish '
     'for inactive bounds, and make the Lagrangian gradient vanish whenever such multipliers exist; the optimality measures are '
     'the residuals of the first-order conditions at that point.',
     ['inputs'], 'every Jacobian, gradient, bound and activity pattern',
     'Tests check a few patterns against stored numbers.',
     ['blls.py', 'sqpdfo_compute_multiplier.py', 'sqpdfo_optimality.py', 'bcdfo_projgrad.py'],
     [('bounded least squares', 'blls_'), ('multipliers', 'sqpdfo_compute_multiplier_'), ('measures', 'sqpdfo_optimality_ / bcdfo_projgrad_')],
     UNIT + ', enumeration of all faces as oracle', 'exploration', 'All matrices, bounds and activity patterns of the alphabets are executed.')
prop('C25', 'Truncated conjugate gradients follow Steihaug\'s path',
     'The truncated conjugate gradient step never leaves the ball, never increases the quadratic, decreases it at least as '
     'much as steepest descent, and ends exactly where Steihaug\'s path ends, reporting the right reason, iteration count and residual.',
     ['inputs'], 'every symmetric matrix, right-hand side, radius, limit and tolerance',
     'The test solves one or two systems.',
     ['sqpdfo_truncated_cg.py'], [('truncated CG', 'sqpdfo_truncated_cg_')],
     UNIT + ', explicit Krylov minimisers as oracle', 'exploration', 'All matrices, right-hand sides, radii and limits of the alphabets are executed.')
prop('C27', 'Curvature matrices are the documented ones',
     'The quasi-Newton update keeps positive definiteness and the secant condition with Powell\'s correction, restarts as asked and '
     'refuses unusable steps; the model Hessian is that of the Lagrangian with current multipliers; convexification and conditioning '
     'change a matrix only where needed and as little as stated.',
     ['inputs', 'configurations'], 'every matrix, step, gradient change, multiplier and point set',
     'Tests check one update and one matrix each.',
     ['sqpdfo_bfgs_update.py', 'sqpdfo_computeHessian.py', 'sqpdfo_check_convex.py', 'sqpdfo_check_cond.py'],
     [('BFGS', 'sqpdfo_bfgs_update_'), ('Hessian of the Lagrangian', 'sqpdfo_computeHessian_'),
      ('safeguards', 'sqpdfo_check_convex_ / sqpdfo_check_cond_')],
     UNIT + ', inverse-form update, independent fit and spectrum as oracles', 'exploration', 'All matrices, steps and sets of the alphabets are executed.')
prop('C28', 'Trial steps are admissible and make progress',
     'Every trial point is finite, lies within the bounds and within the radius allowance, and does not worsen the linearised '
     'equality constraints. From points inside the bounds it reduces infeasibility, by the amount it reports, or the model when already feasible, and '
     'where no bound interferes it is exactly the restoration step followed by the tangent step.',
     ['inputs'], 'every local model: curvature, gradient, constraint Jacobian, residual, bounds, radius, slacks',
     'The tests compute two steps and compare with stored numbers; the active-set loop is barely entered.',
     ['sqpdfo_solve_TR_bc.py', 'bcdfo_solve_TR_MS_bc.py', 'sqpdfo_truncated_cg.py'],
     [('restoration, tangent step and active-set loop', 'sqpdfo_solve_TR_bc_')],
     UNIT + ', definition of the step and independent recomputation as oracle', 'exploration', 'All local models of the alphabets are executed.')
prop('C29', 'The best evaluated point is recognised',
     'When the interpolation set is searched for its best point, the centre becomes the point of least merit (value plus penalty '
     'times constraint violation, slacks included) among those inside the bounds that were really evaluated; it moves only to a '
     'strictly better point; and points, values, indices, factorisation and reported values all follow the exchange.',
     ['inputs', 'configurations'], 'every set, value pattern, penalty, slack state, bound box and dummy pattern',
     'The test searches one set without bounds binding, slacks or dummies.',
     ['sqpdfo_find_smallf.py', 'sqpdfo_swap_in_Y.py'], [('selection of the best point', 'sqpdfo_find_smallf_'), ('exchange', 'sqpdfo_swap_in_Y_')],
     UNIT + ', direct definition of the merit as oracle', 'exploration', 'All combinations of the alphabets are executed.')
prop('C30', 'The store of evaluated points is faithful',
     'Each evaluation calls the user functions exactly once at the new point and records exactly that point, its value, its '
     'constraint values and its status; everything recorded before stays as it was; a failed evaluation is reported as failure '
     'and records no value.',
     ['histories', 'fault_sequences'], 'every sequence of evaluations and outcomes',
     'The test stores one point.',
     ['sqpdfo_augmX_evalf.py', 'sqpdfo_evalfgh.py', 'sqpdfo_func.py'],
     [('recording', 'sqpdfo_augmX_evalf_'), ('calling the user functions', 'sqpdfo_evalfgh_ / sqpdfo_func_')],
     'explicit-state exploration of evaluation sequences on the real code against a list model', 'model_checking',
     'Every transition of the model is executed by the real code and compared.',
     state=[('store', 'list of (point, value, constraints, status)', 'X, fX, ceX, xstatus, sstatus, dstatus')])
