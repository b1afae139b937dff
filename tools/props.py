#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
QP, NL, RES, STR, SER, TRC = "source/qp.cc", "source/nonlinear.cc", "include/mini_opt/residual.hpp", "source/structs.cc", "source/serialization.cc", "source/tracing.cc"
QPH, NLH, STH, TRH = "include/mini_opt/qp.hpp", "include/mini_opt/nonlinear.hpp", "include/mini_opt/structs.hpp", "include/mini_opt/tracing.hpp"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=list(over), text=text), why_tests_cant=why,
      anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

prop("C01", "Interior-point 'converged' verdicts are truthful",
 "Whenever the interior-point QP solver reports that it satisfied its tolerance, the returned point and multipliers satisfy the first-order optimality conditions of the problem that was passed in: stationarity, equality constraints and inequality-slack consistency have norm below the requested tolerance, every slack-multiplier product is within that tolerance of one common value, and the average product is below the requested complementarity tolerance. The reported summary of the equality multipliers (minimum and largest magnitude) is that of the returned multipliers, and is absent exactly when there are no equality constraints. It never reports tolerance satisfied for a point where these conditions fail, and reports running out of iterations only when no iteration met them.",
 ["inputs", "configurations"], "all QPs (any size, any mix of constraints), all parameter settings, barrier strategies and initial-guess methods",
 "The tests check the verdict on about 20 hand-made QPs plus generated ones of one kind; they never recompute the residuals from the problem data and never look at points where the verdict would be wrong.",
 [QP, QPH], [("convergence test after every iteration", "source/qp.cc QPInteriorPointSolver::Solve"), ("KKT residual", "EvaluateKKTConditions, ComputeErrors"), ("multiplier summary", "ComputeLagrangeMultiplierSummary")],
 [("variables_", "x,s,y,z", "qp.hpp")], ["return value of Solve", "x_block/s_block/y_block/z_block"])
prop("C02", "Interior-point iterates stay strictly interior and inequality-feasible",
 "As long as the iterates stay in a numerically moderate range (magnitudes below 1e10; an infeasible problem can make the multipliers diverge), all slacks and all inequality multipliers are strictly positive after every interior-point iteration. When the solver builds its own initial guess and the bounds do not contradict each other, the returned point satisfies every inequality constraint up to round-off (about 1e-8 in constraint value), whatever the iteration budget, barrier strategy or reason for stopping.",
 ["inputs", "configurations", "histories"], "all QPs with inequality constraints, at every iteration count at which the solver can be stopped",
 "The tests look only at the final converged point of problems that converge in a few iterations; an iterate that leaves the interior on some step, or a truncated run, is not observed.",
 [QP, QPH], [("step lengths to the boundary", "source/qp.cc ComputeAlpha"), ("clamped initial guess", "ComputeInitialGuess"), ("same step for x and s", "Iterate")],
 [("s,z", "slacks and multipliers", "qp.hpp variables_")], ["s_block, z_block, x_block after Solve with budget k = 1,2,..."])
prop("C03", "Every interior-point iteration is the Newton step for the barrier problem",
 "One iteration from any interior state moves along the solution of the linearised optimality system for the barrier value reported for that iteration (including the second-order correction term in predictor-corrector mode). Primal variables move together by one step length and dual variables by another; each is the full step if that keeps the slacks (multipliers) positive and otherwise 0.995 of the distance to the boundary. In predictor-corrector mode the reported probe step lengths and affine complementarity are those of the step computed with barrier value zero. Only the lower triangle of the cost matrix is read; what the upper one holds does not matter.",
 ["inputs", "histories", "configurations"], "all QPs, all interior states, all barrier values and strategies",
 "The tests compare a single linear solve with zero barrier value on four fixed problems; the predictor-corrector branch is never executed and the step-length rule is checked on one vector.",
 [QP, QPH], [("elimination and back-substitution", "source/qp.cc ComputeLDLT, SolveForUpdate"), ("step selection", "Iterate, ComputeAlpha, ComputePredictorCorrectorMuAffine")],
 [("delta", "Newton direction", "qp.hpp delta_")], ["variables before/after a one-iteration Solve", "iteration record"])
prop("C04", "Interior-point iteration log and barrier schedule match the run",
 "The returned log has one entry per executed iteration, between one and the iteration budget, and its before/after error norms are the norms of the optimality residuals at the states before and after that iteration for the barrier value in force. The barrier value starts at the configured initial value (or at the initial complementarity when so configured) and afterwards follows the configured strategy: multiplied by the reduction factor, or the reduction factor times the current complementarity, and only once the error is no larger than the barrier value when so configured. A run with a smaller budget is a prefix of a run with a larger one.",
 ["inputs", "configurations", "histories"], "all QPs, all parameter combinations, all budgets",
 "No test reads the log entries or checks the barrier sequence; only COMPLEMENTARITY with default gating is ever executed.",
 [QP, QPH, STH], [("solve loop", "source/qp.cc Solve"), ("error norms", "ComputeErrors"), ("complementarity", "ComputeMu")],
 [("mu", "barrier value", "Solve")], ["QPInteriorPointSolverOutputs.iterations"])
prop("C05", "Well-posed convex QPs are actually solved",
 "For every strictly convex QP whose inequality constraints have an interior that meets the (independent) equality constraints, the interior-point solver, started from either of its own initial guesses with the complementarity or fixed-decrease barrier strategy and a generous iteration budget, reports convergence. The returned point is then the unique constrained minimiser up to an error bounded by the tolerances.",
 ["inputs", "configurations"], "all well-posed moderately scaled strictly convex QPs, both own initial guesses, both non-predictor strategies",
 "The tests sample a handful of problem shapes and one seed; a change that slows down or misdirects the iteration for other active sets, constraint scalings or strategies is not seen.",
 [QP, QPH], [("interior-point iteration", "source/qp.cc Solve, Iterate"), ("initial guess", "ComputeInitialGuess")], (), ["termination state and x_block"])
prop("C06", "Null-space solver gives the constrained minimiser or says not definite",
 "For an equality-constrained QP with consistent constraints (independent or redundant, and up to fully determining the point), the null-space solver reports success exactly when the cost is strictly convex on the constraint null space, and the solution it then exposes satisfies the constraints and has zero gradient along every feasible direction, up to round-off. When the cost is not positive definite on the null space it reports so instead of returning a point. Only the lower triangle of the cost matrix is significant. The eigenvalue summary of a problem (least, greatest, least in magnitude) is that of its cost matrix.",
 ["inputs"], "all sizes, ranks and constraint orderings; cost matrices that are definite, indefinite, or definite only on the null space",
 "Two fixed problems are tested, both with independent constraints and positive definite cost; the failure verdict, redundant and fully determining constraints are never exercised.",
 [QP, QPH], [("rank-revealing QR and reduced Cholesky", "source/qp.cc QPNullSpaceSolver::Solve"), ("eigenvalue summary", "QP::ComputeEigenvalueStats")], (), ["return value and variables()"])
prop("C07", "The nonlinear solver only moves to points with sufficient merit decrease",
 "The estimate held by the nonlinear solver changes only when a line search succeeds, and then becomes exactly the last candidate evaluated: the current estimate retracted by the step direction times the accepted step length. An accepted candidate has finite errors and its merit (cost plus penalty times equality error) is at most the current merit plus 1e-4 times step length times the directional derivative, with a non-positive derivative. After any other outcome, and on early exits, the estimate is unchanged, and the final estimate is the last accepted one (or the initial guess).",
 ["inputs", "histories", "configurations"], "all problems (smooth or adversarial residual functions, including ones returning non-finite values), retractions, parameters and iteration histories",
 "None of the tests that exercise the nonlinear solver runs in this environment; upstream tests check final answers of smooth problems, so rejected steps, non-finite costs and custom retractions are hardly exercised.",
 [NL, NLH], [("Armijo test", "source/nonlinear.cc SelectStepSize"), ("swap on success", "UpdateLambdaAndCheckExitConditions"), ("retraction", "RetractCandidateVars")],
 [("variables_", "current estimate", "nonlinear.hpp")], ["retraction and residual callbacks, user callback, variables()"])
prop("C08", "Nonlinear termination verdicts are truthful and the run is bounded",
 "A solve executes at most the configured number of iterations and ends with exactly one verdict, which is true of the run: absolute tolerance only after a step to errors below it, relative tolerance only after a step that decreased the merit by less than the configured fraction, first-order only when both directional derivatives are below tolerance, maximum damping only when an unsuccessful iteration pushed the damping above its maximum, indefinite only when the QP failed, user-callback only when the callback returned false, and maximum iterations only when none of these occurred. Whenever one of these conditions occurs the solve stops at that iteration. The user callback is invoked exactly once per logged iteration, in order, with that iteration's record, and cannot mask another verdict.",
 ["inputs", "histories", "configurations"], "all problems, parameters, callback answers and outcome sequences",
 "Upstream tests assert only that some tolerance verdict was reached on smooth problems; the interplay of verdict priority, callback answers, budgets and failures is not exercised.",
 [NL, NLH], [("main loop", "source/nonlinear.cc Solve"), ("exit conditions", "UpdateLambdaAndCheckExitConditions"), ("QP verdict", "QPWasIndefinite")],
 (), ["NLSSolverOutputs", "user exit callback"])
prop("C09", "Levenberg-Marquardt damping follows its schedule and bounds",
 "The damping used and reported at each iteration starts at the configured initial value in nominal mode and never exceeds its maximum. A successful step multiplies it by the success factor (or the restore factor when recovering), never below the minimum, and returns to nominal mode; an exhausted line search or an uphill direction raises it to at least the configured failure value and at least tenfold, respectively tenfold when already recovering, and enters recovery; other outcomes leave it unchanged. The logged mode is the one after the iteration, and the subproblem solved uses the logged damping on the diagonal of the Hessian.",
 ["histories", "configurations", "inputs"], "all sequences of step outcomes and all damping parameters",
 "No runnable test executes the damping logic at all; upstream tests only see that the optimizer eventually converges.",
 [NL, NLH], [("damping update", "source/nonlinear.cc UpdateLambdaAndCheckExitConditions"), ("diagonal damping", "LinearizeAndFillQP")],
 [("lambda", "damping", "Solve local"), ("state_", "nominal / recovering", "nonlinear.hpp")], ["NLSIteration.lambda, optimizer_state", "QP step seen by the retraction"])
prop("C10", "Line search tries legal step lengths and classifies its outcome correctly",
 "Every line search first tries the full step and then strictly smaller positive step lengths, at most the configured number of extra tries: each the previous one times the backtracking factor, or the minimiser of the quadratic (second try) or cubic (later tries) that interpolates the merit, depending on the strategy. It stops at the first candidate that is non-finite, that shows a stationary or uphill direction, or that satisfies the sufficient-decrease test, and reports success, non-finite cost, first-order, positive derivative, invalid step length (interpolation gave no smaller positive step) or exhausted accordingly. The logged tries are exactly the candidates evaluated, with their step lengths and errors.",
 ["inputs", "histories", "configurations"], "all merit profiles along the direction, including non-finite ones, both strategies, all budgets",
 "Upstream unit tests check the two interpolation formulas on one data point each (and cannot run here); the search loop, its ordering of exit tests and the log are not tested.",
 [NL, NLH], [("search loop", "source/nonlinear.cc SelectStepSize"), ("interpolation", "ComputeAlphaPolynomialApproximation, QuadraticApproxMinimum, CubicApproxCoeffs, CubicApproxMinimum")],
 [("steps_", "tries", "nonlinear.hpp")], ["NLSIteration.line_search_steps, step_result", "retraction callback"])
prop("C11", "The equality penalty never decreases and is raised as required",
 "The penalty weight starts at its configured initial value, never decreases during a solve, is unchanged when there are no equality constraints, and the same value is used for the merit before and after each step of an iteration. When the required penalty exceeds the current one it becomes exactly the required value times the configured scale factor. The required value is the largest equality multiplier magnitude when the inner solver provides multipliers, and otherwise the predicted quadratic change of the cost divided by (1 - rho) times the equality error.",
 ["inputs", "histories", "configurations"], "all problems with and without equality constraints, both inner solvers, all penalty parameters",
 "No runnable test executes it; upstream tests never assert on the penalty.",
 [NL, NLH], [("penalty selection", "source/nonlinear.cc SelectPenalty, Solve")], [("penalty", "merit weight", "Solve local")], ["NLSIteration.penalty"])
prop("C12", "Each nonlinear iteration solves the faithful linearised subproblem",
 "Every iteration linearises all residuals at the current estimate: the reported initial errors are half the squared norm of the stacked costs and the L1 norm of the equality residuals there, and the reported directional derivatives are the exact slopes of both along the chosen step. The step solves the QP built from those linearisations plus damping, with equality constraints linearised and bounds shifted to the current estimate: when the inner solve succeeds it is that QP's minimiser up to solver tolerance. The inner solve keeps to the configured iteration limit and tolerance. Reported Hessian eigenvalues, when requested, are those of that QP's cost matrix.",
 ["inputs", "histories"], "all problems: any number, size, sparsity and order of costs, equality constraints and bounds, at any iteration",
 "No runnable test executes the linearisation; upstream covers one derivative check on one fixed problem.",
 [NL, NLH, RES], [("assembly", "source/nonlinear.cc LinearizeAndFillQP"), ("direction", "ComputeStepDirection"), ("slopes", "ComputeQPCostDerivative")],
 [("qp_", "subproblem", "nonlinear.hpp")], ["residual callbacks", "NLSIteration", "retraction callback (dx)"])
prop("C13", "Bounds hold at every point the nonlinear solver evaluates",
 "With additive steps, if the initial guess satisfies all (mutually consistent) bound constraints, then every candidate evaluated and every estimate held by the nonlinear solver satisfies them up to round-off. If the initial guess violates some bound, the violation of no bound ever grows from one accepted estimate to the next, and a bound that is satisfied stays satisfied.",
 ["inputs", "histories", "configurations"], "all problems with bounds, all inner iteration budgets (including truncated inner solves), all outcomes of the line search",
 "Upstream tests check only the final point; no runnable test executes bounds in the nonlinear solver.",
 [NL, QP, QPH], [("bounds shifted to the estimate", "source/nonlinear.cc LinearizeAndFillQP, LinearInequalityConstraint::ShiftTo"), ("interior steps", "source/qp.cc"), ("step length at most one", "SelectStepSize")],
 (), ["points passed to residuals"])
prop("C14", "Linear least-squares problems with linear constraints are solved to optimality",
 "For every well-conditioned strictly convex linear least-squares problem with independent linear equality constraints and/or bounds whose feasible set has an interior, started from a guess strictly inside the bounds with a first-derivative tolerance above the inner solver's accuracy (3e-5 or more) and enough iterations, the nonlinear solver ends with a tolerance-satisfied verdict at the constrained minimiser, up to an error controlled by the tolerances.",
 ["inputs", "configurations"], "all such problems (sizes, constraint mixes, guesses), both line-search strategies, with and without initial damping",
 "No runnable test executes the nonlinear solver; the property quantifies over all linear problems rather than a few functions.",
 [NL, QP], [("SQP loop", "source/nonlinear.cc Solve")], (), ["NLSSolverOutputs, variables()"])
prop("C15", "Residual blocks are assembled exactly at their parameter indices",
 "For any residual over any distinct parameter indices in any order, with static or dynamic parameter count: the function is called with exactly the selected parameters in the given order; accumulating into a linear system adds the Jacobian's Gram matrix to the matching lower-triangle entries and Jacobian-transpose times error to the matching vector entries, touching nothing else, and returns half the squared error norm. Writing a Jacobian block sets exactly the selected columns and the error, in the given rows only; plain evaluation returns the same error without requesting a Jacobian.",
 ["inputs", "programs"], "all index lists, dimensions, prior contents of the output system and function values",
 "Four index patterns with one function are tested, always starting from a zero system; accumulation onto existing contents, unselected columns, blocks inside larger matrices and other orders are not.",
 [RES, "source/residual.cc"], [("gather/scatter", "include/mini_opt/residual.hpp GatherValues, UpdateHessian, UpdateJacobian, ErrorVector")], (), ["Residual public methods"])
prop("C16", "Bound constraint primitives agree with their inequality",
 "A bound written as variable <= v or variable >= v is satisfied by exactly the values on that side (including v), and in general a constraint a*x + b >= 0 is satisfied by exactly the x for which it holds. Clamping returns a satisfying value (up to round-off), leaves satisfying values unchanged, is the closest such value, and refuses a zero coefficient. Shifting to a point p yields the constraint that holds for d exactly when the original holds for p + d, for the same variable.",
 ["inputs"], "all coefficients of either sign, all values",
 "A dozen sample values are tested, nearly all with unit coefficients; clamping with non-unit or negative coefficients and shifting in combination are not.",
 [QPH], [("primitives", "include/mini_opt/qp.hpp LinearInequalityConstraint, Var")], (), ["public methods"])
prop("C17", "Solvers can be reused: results depend only on the call's inputs",
 "Each solver object gives, for a given problem, parameters and initial guess, the same result as a freshly constructed one, whatever was solved on it before: problems of other sizes or constraint mixes, runs that failed, and runs aborted by an exception from a user function. The caller's problem description is never modified, and a solve never reads memory it has not initialised.",
 ["histories", "programs"], "all sequences of set-up/solve calls on one object, including exceptional exits",
 "Tests construct a solver and solve once, or re-solve the same problem; no test mixes problem shapes, failures and exceptions on one object.",
 [QP, NL, QPH, NLH], [("Setup resizes/zeroes storage", "source/qp.cc Setup, ComputeLDLT"), ("per-solve reset", "source/nonlinear.cc Solve, SelectStepSize"), ("solver selection", "Solve")],
 [("solver storage", "re-used between solves", "qp.hpp, nonlinear.hpp")], ["outputs and variables() of both runs"])
prop("C18", "Run statistics and text reports agree with the iteration log",
 "The counts of inner QP iterations, line-search tries and failed line searches equal what the log contains (a null-space solve counts as one QP iteration; success and first-order are the only non-failed searches). The text report lists every iteration and every try in order with its number, mode, verdict names, damping, penalty, errors and step lengths as logged, ends with the termination verdict, includes inner QP iterations only when asked, and contains terminal colour codes only when asked. Every enumerator prints as its own name.",
 ["inputs", "histories"], "all possible logs (any mixture of outcomes, lengths, optional fields), all flag combinations",
 "No runnable test looks at statistics or report text.",
 [STR, STH], [("folds over the log", "source/structs.cc NumQPIterations, NumLineSearchSteps, NumFailedLineSearches"), ("text", "ToString and stream operators")], (), ["return values and strings"])
prop("C19", "Serialised solver outputs round-trip without loss",
 "Serialising solver outputs to JSON text and reading them back gives outputs equal in every field: termination verdict, every iteration with its numbers bit for bit, which inner solver ran and its own log, present or absent optional parts, and every enumerator (written as its own name). Non-finite numbers, which JSON cannot express, come back as not-a-number rather than making the document unreadable.",
 ["inputs", "histories"], "all possible outputs: all enumerator combinations, optional parts, log lengths and number values",
 "No test in the repository serialises anything.",
 [SER, "include/mini_opt/serialization.hpp"], [("field lists and enum tables", "source/serialization.cc")], (), ["nlohmann::json conversion of NLSSolverOutputs"])
prop("C20", "Concurrent tracing loses, duplicates and reorders nothing",
 "Events submitted to a trace collector from any number of threads appear in its exported JSON exactly once, each with the name, timestamp, process, thread and duration (in microseconds) submitted, and with each thread's events in submission order; once more than 100000 are held only the most recently submitted 100000 remain. The export is always a well-formed JSON document of complete events in the Chrome trace format, and is safe to request while other threads submit, showing a state the collector really had. A traced scope records exactly one event when it is left normally and none when it is left by an exception.",
 ["schedules", "histories"], "all thread interleavings of submissions and exports, all event counts",
 "No test uses the collector at all; interleavings and overflow need many threads and 100000+ events.",
 [TRC, TRH], [("mutex around the event queue", "source/tracing.cc submit_event, get_trace_json"), ("bounded queue", "submit_event"), ("scope exit", "scoped_trace::~scoped_trace")],
 [("events", "bounded FIFO", "tracing.cc trace_collector_impl")], ["get_trace_json"])
prop("C21", "Malformed problems and parameters are rejected before any work",
 "Problems with inconsistent dimensions, constraint or parameter indices outside the problem (negative or too large), a bound whose coefficient is zero where an estimate has to be clamped to it, a missing problem, a guess of the wrong dimension, or parameters outside their documented ranges are rejected with the library's assertion error rather than being solved or touching memory outside the problem. Rejection happens before any user function is evaluated with a wrong argument and before the caller's estimate is changed, and a rejected problem is not used by later calls. Every finite parameter set that passes this validation, with tolerances attainable in double precision, can be solved with: a well-formed problem whose functions return finite values with finite squares and whose linearised subproblems are strictly convex and feasible never triggers an assertion failure later.",
 ["inputs", "configurations"], "all single-field and pairwise deviations from a valid problem or parameter set, including boundary values",
 "The tests never construct an invalid problem or parameter set.",
 [QP, NL, RES, QPH, "include/mini_opt/assertions.hpp"], [("assertions", "source/qp.cc Setup, CheckParams; source/nonlinear.cc constructor, CheckParams; residual.hpp GatherValues")], (), ["exceptions thrown"])

prop("C22", "Solver objects are independent of each other",
 "Distinct solver objects do not influence each other. Used at the same time from different threads, on the same constant problem or different ones, in any interleaving, or one inside a residual, retraction or exit callback that another one is calling, each solve and each error evaluation makes the same calls with the same estimates and gives bit for bit the same results as when it runs alone; evaluating errors on the running solver itself from its exit callback changes nothing either. Solving never modifies the problem, and solves on a shared problem contain no data race of the library's own (user functions being safe to call concurrently).",
 ["schedules", "inputs", "histories"], "all interleavings of several solves at their calls to user functions, all nestings of one call inside another, problems shared or not",
 "The tests use one solver at a time in one thread; hidden shared state (static or cached scratch storage) shows only when two uses overlap at the right place.",
 [RES, NL, QP], [("scratch storage of an evaluation", "include/mini_opt/residual.hpp GatherParams, UpdateHessian, UpdateJacobian"), ("members of the solvers", "nonlinear.hpp, qp.hpp")],
 [("all members of a solver object", "owned by that object alone", "nonlinear.hpp, qp.hpp")], ["results and calls of overlapping solves", "ThreadSanitizer reports"])
prop("C23", "The interior-point solver starts from the configured guess",
 "The first iteration of an interior-point solve starts from the guess its configuration names. The naive guess has the primal variables and equality multipliers zero; the equality-constrained guess has the minimiser of the problem without its inequalities and that problem's multipliers, whenever this problem determines them. In both, the primal variables are then clamped to each bound in the order of the list, each slack is the value of its constraint (floored at a tiny positive number, 1e-9) and each inequality multiplier is the reciprocal of its slack. A user-provided guess is used exactly as it was set, component by component, and is exactly what the previous solve left if nothing was set. With initialize_mu_with_complementarity the barrier value of the first iteration is the average complementarity of that guess, otherwise the configured one.",
 ["inputs", "configurations", "histories"], "all QPs, all three guess methods, guesses set as a whole or through the variable blocks, warm starts over any chain of solves",
 "The tests look only at converged results, which do not depend on the start; no test sets a guess through the blocks, warm starts, or looks at the first iteration.",
 [QP, QPH], [("guess and clamping", "source/qp.cc ComputeInitialGuess"), ("initial barrier value", "Solve"), ("user guess", "SetVariables, x_block .. z_block")],
 [("variables_", "x,s,y,z", "qp.hpp")], ["initial residual norms and barrier value in the first iteration record; variables after a one-iteration Solve; variables before and after for user guesses"])
prop("C24", "Failures of user functions surface and leave the solver intact",
 "When a residual, the retraction or the exit callback throws during a nonlinear solve or an error evaluation, exactly the exception thrown (its own type and contents) reaches the caller, no user function is called after it, the solver still holds the estimate it held when the failing call was made, never a half-built candidate, and the next call on the same solver gives bit for bit what it gives on a new one. A solve whose functions are not finite at the initial guess never reports convergence, an exhausted budget, or a user exit: it ends in the library's assertion error or an indefinite subproblem, without evaluating any candidate and with the initial guess held. Functions are called in whole rounds: every residual once per linearisation, every residual once per candidate, one retraction per candidate, one callback per iteration.",
 ["crash_points", "inputs", "histories"], "every call of every run as the point of failure, all kinds of exceptions, all mixtures of costs, equalities, bounds, retraction and callback",
 "No test throws from a user function or starts where a function is not finite; the failing call has to be each one of the run.",
 [NL, NLH, RES], [("loop over iterations", "source/nonlinear.cc Solve"), ("candidates", "RetractCandidateVars, SelectStepSize, UpdateLambdaAndCheckExitConditions"), ("finite start", "SelectStepSize")],
 [("variables_", "current estimate", "nonlinear.hpp"), ("candidate_vars_", "candidate", "nonlinear.hpp"), ("state_", "nominal or restoring", "nonlinear.hpp")], ["exceptions out of Solve and EvaluateNonlinearErrors", "variables() in and after user functions", "calls of user functions"])
prop("C25", "Well-posed nonlinear problems are solved",
 "A nonlinear least-squares problem with equality constraints and bounds whose residuals are mildly curved - curvature times conditioning of the optimality system times (distance of the start plus size of the remaining residual and multipliers) at most one half - and which has a regular, strictly complementary solution, is solved from every start that meets the bounds: the run ends with a tolerance-satisfied verdict within 15 iterations, at a point whose excess cost and constraint violation are no more than twice what the tolerances leave open. This holds for both line-search strategies and any initial penalty, with and without damping, when the first-derivative tolerance is no finer than the accuracy the inner solver is asked for (with bounds: the root of its tolerance per bound; with bounds and equalities together: when the inner solves end converged), on a new or a re-used solver. Without bounds, the verdict, number of iterations and result are those of the specified algorithm, on well-posed and on other problems.",
 ["inputs", "configurations", "histories"], "all mildly curved problems with a regular solution: sizes, curvatures, remaining residuals, active and inactive bounds, constraints, starts, parameters",
 "No runnable test executes the nonlinear solver, and convergence is a statement about whole runs on all such problems; a solver may obey each local rule and still stall or stop early.",
 [NL, NLH, QP, RES], [("SQP loop", "source/nonlinear.cc Solve"), ("step, penalty, line search, damping", "LinearizeAndFillQP, SelectPenalty, SelectStepSize, UpdateLambdaAndCheckExitConditions")], (), ["NLSSolverOutputs, variables()"])

prop("C26", "Watching a solve does not change it",
 "Observing a solve has no influence on it. Logging the eigenvalues of the subproblems, an exit callback that always continues (whatever it reads, copies, formats or serialises), reading the solver's estimate from inside user functions, reading the collected trace meanwhile, and building with or without tracing, serialization and debug assertions leave the same calls to user functions with the same arguments in the same order, the same log apart from the eigenvalues asked for, the same verdict and the same final estimate, bit for bit. The callback is told each iteration exactly once, in order, after the iteration's last call, with the entry the returned log holds. Problem, parameters and guess are left as they were. The same holds for the two inner solvers used on their own.",
 ["inputs", "configurations", "schedules"], "all problems and ways of watching: callbacks, eigenvalue logging, reads from user functions, trace readers, compile-time options; runs with damping, failures and indefinite subproblems",
 "The tests run one build and never compare an observed run with an unobserved one; an observer that disturbs the run does so only where its side effect meets later use.",
 [NL, NLH, QP, TRC], [("observers", "source/nonlinear.cc Solve (callback, log_qp_eigenvalues), ComputeEigenvalueStats, MINI_OPT_FUNCTION_TRACE"), ("build options", "MINI_OPT_TRACING, MINI_OPT_SERIALIZATION, NDEBUG")], (), ["NLSSolverOutputs, variables(), user function calls, exit callback"])

prop("C27", "Exit settings only cut a run short",
 "Settings that decide when to stop do nothing else. Running the same solve with a smaller iteration budget, a larger absolute or relative tolerance, a smaller maximum damping or a callback that says stop makes exactly the first iterations of the unrestricted run, with the same calls to user functions, the same log entries and, when it ends after n iterations, the estimate the unrestricted run holds then; if the restriction never takes effect the whole run is the same, bit for bit. A larger first-derivative tolerance ends an iteration after its first candidate and leaves the estimate, and a smaller line-search budget fails the first search that needs more tries after exactly the tries it has, everything before being the same. Likewise the iteration budget and the two tolerances of the interior-point solver.",
 ["inputs", "configurations", "histories"], "all problems, exit settings and iterations at which they take effect, in runs with damping, failures and indefinite subproblems",
 "The tests fix one setting per problem; whether a budget or tolerance influences the steps shows only when runs with different settings are compared iteration by iteration.",
 [NL, NLH, QP, QPH], [("exits of the nonlinear solver", "source/nonlinear.cc Solve, SelectStepSize, UpdateLambdaAndCheckExitConditions"), ("exits of the interior point solver", "source/qp.cc Solve")], (), ["NLSSolverOutputs, QPInteriorPointSolverOutputs, variables(), user function calls"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    try:
        import jsonschema
        sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in P: jsonschema.validate(p, sch)
    except ImportError:
        pass
    print(len(P), "properties")
