-------------------------------- MODULE Inputs --------------------------------
(***************************************************************************)
(* What is accepted and what is rejected: parameters, problems, guesses,   *)
(* and the effect of a rejection.  A verdict is "accept", "reject" or      *)
(* "either" (where the library makes no promise).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Num

(* ---- parameters of the nonlinear solver: the documented range of each, and relations between them ---- *)
NLSFields == <<"max_iterations", "max_qp_iterations", "termination_kkt_tolerance", "absolute_exit_tol", "relative_exit_tol", "absolute_first_derivative_tol",
               "max_line_search_iterations", "armijo_search_tau", "equality_penalty_initial", "equality_penalty_scale_factor", "equality_penalty_rho",
               "lambda_initial", "lambda_failure_init", "lambda_decrease_on_success", "lambda_decrease_on_restore", "max_lambda", "min_lambda">>
NLSDefault == [ max_iterations |-> "10", max_qp_iterations |-> "10", termination_kkt_tolerance |-> "1e-6", absolute_exit_tol |-> "1e-12", relative_exit_tol |-> "1e-5",
                absolute_first_derivative_tol |-> "1e-6", max_line_search_iterations |-> "2", armijo_search_tau |-> "0.8", equality_penalty_initial |-> "1",
                equality_penalty_scale_factor |-> "1.01", equality_penalty_rho |-> "0.1", lambda_initial |-> "0", lambda_failure_init |-> "1e-2",
                lambda_decrease_on_success |-> "0.1", lambda_decrease_on_restore |-> "0.8", max_lambda |-> "1", min_lambda |-> "0" ]
Positive(v) == NLt("0", v)
NonNegative(v) == NLe("0", v)
Fraction(v) == NLe("0", v) /\ NLt(v, "1")          \* [0, 1)
InNLSRange(f, v) ==
  CASE f \in {"max_iterations", "max_line_search_iterations", "absolute_first_derivative_tol", "lambda_failure_init", "max_lambda"} -> NonNegative(v)
    [] f = "max_qp_iterations" -> NLe("1", v)
    [] f \in {"termination_kkt_tolerance", "absolute_exit_tol", "equality_penalty_initial"} -> Positive(v)
    [] f = "relative_exit_tol" -> NLe("0", v) /\ NLe(v, "1")
    [] f = "armijo_search_tau" -> NLt("0", v) /\ NLt(v, "1")
    [] f = "equality_penalty_scale_factor" -> NLe("1", v)
    [] f \in {"equality_penalty_rho", "lambda_decrease_on_success", "lambda_decrease_on_restore"} -> Fraction(v)
    [] f \in {"lambda_initial", "min_lambda"} -> NLe(v, v)   \* not NaN; bounded by the relations
NLSRelations(p) == NLe(p.min_lambda, p.lambda_initial) /\ NLe(p.lambda_initial, p.max_lambda) /\ NLe(p.min_lambda, p.max_lambda)
ValidNLS(p) == (\A f \in DOMAIN p : InNLSRange(f, p[f])) /\ NLSRelations(p)
AllFinite(p) == \A f \in DOMAIN p : NIsFin(p[f])
\* With a negative damping the damped subproblems need not be convex.
NLSVerdict(p) == IF ~ValidNLS(p) THEN "reject" ELSE IF AllFinite(p) /\ NLe("0", p.lambda_initial) THEN "accept" ELSE "either"

(* ---- parameters of the interior point solver ---- *)
IPFields == <<"initial_mu", "sigma", "termination_kkt_tol", "termination_complementarity_tol", "max_iterations">>
IPDefault == [initial_mu |-> "1", sigma |-> "0.5", termination_kkt_tol |-> "1e-9", termination_complementarity_tol |-> "1e-6", max_iterations |-> "10"]
ValidIP(p) == Positive(p.initial_mu) /\ NLt("0", p.sigma) /\ NLe(p.sigma, "1") /\ Positive(p.termination_kkt_tol) /\ NLe("1", p.max_iterations)
IPVerdict(p) == IF ~ValidIP(p) THEN "reject" ELSE IF AllFinite(p) THEN "accept" ELSE "either"

(* ---- quadratic problems: [g: <<rows, cols>>, c: rows, a: <<rows, cols>>, b: rows, vars: indices of the bounds, zero: a bound has coefficient 0] ---- *)
ConsistentQP(q) == q.g[1] = q.g[2] /\ q.c = q.g[1] /\ q.a[1] = q.b /\ (q.a[1] > 0 => q.a[2] = q.g[1])
IndicesIn(seq, n) == \A k \in DOMAIN seq : 0 <= seq[k] /\ seq[k] < n
SetupVerdict(q) == IF ~ConsistentQP(q) \/ ~IndicesIn(q.vars, q.g[1]) THEN "reject"
                   ELSE IF q.g[1] = 0 \/ (q.a[1] = 0 /\ q.a[2] \notin {0, q.g[1]}) THEN "either" ELSE "accept"
NullVerdict(q) == IF ~ConsistentQP(q) \/ q.a[1] = 0 THEN "reject" ELSE IF q.g[1] = 0 \/ q.a[1] > q.g[1] THEN "either" ELSE "accept"

(* ---- the interior point solver as an object: st is the problem it holds ("none", or a name) ---- *)
AfterSetup(st, verdict, name) == IF verdict = "reject" THEN {st, "none"} ELSE {name}
SolveVerdict(st, q, p, positive, user) ==   \* q: the problem held; positive: the slacks to start from are positive (or chosen by the solver); user: the caller provided them
  IF st = "none" \/ ~ValidIP(p) \/ ~positive \/ (q.zero /\ ~user) THEN "reject" ELSE IF ~AllFinite(p) \/ q.a[1] > q.g[1] \/ q.zero THEN "either" ELSE "accept"
SetVarsVerdict(st, q, n) == IF st = "none" THEN (IF n = 0 THEN "either" ELSE "reject") ELSE IF n = q.g[1] + q.a[1] + 2 * Len(q.vars) THEN "accept" ELSE "reject"

(* ---- nonlinear problems: [dim, costs: index lists, eqs: index lists, vars: indices of the bounds, zero, null, moved] ---- *)
CtorVerdict(p) == IF p.null \/ p.dim <= 0 THEN "reject" ELSE IF p.moved THEN "either" ELSE "accept"
BadIndices(p) == (\E k \in DOMAIN p.costs : ~IndicesIn(p.costs[k], p.dim)) \/ (\E k \in DOMAIN p.eqs : ~IndicesIn(p.eqs[k], p.dim)) \/ ~IndicesIn(p.vars, p.dim)
ProblemVerdict(p, guess) == IF BadIndices(p) \/ p.moved \/ p.zero \/ guess # p.dim THEN "reject" ELSE "accept"

(* ---- single residuals: [fixed: number of parameters in the type or -1, idx, n: parameters, op, h: <<rows, cols>>, b: rows, r: residual dimension] ---- *)
MakeVerdict(q) == IF q.fixed >= 0 /\ q.fixed # Len(q.idx) THEN "reject" ELSE "accept"
CallVerdict(q) ==
  IF ~IndicesIn(q.idx, q.n) THEN "reject"
  ELSE CASE q.op = "error" -> IF q.b = q.r THEN "accept" ELSE "reject"
         [] q.op = "hessian" -> IF q.h[1] = q.h[2] /\ q.b = q.h[1] /\ IndicesIn(q.idx, q.h[1]) THEN "accept" ELSE "reject"
         [] q.op = "jacobian" -> IF q.h[1] = q.r /\ q.b = q.r /\ IndicesIn(q.idx, q.h[2]) THEN "accept" ELSE "reject"
         [] q.op = "hessian_null" -> "reject"
         [] q.op = "moved" -> "reject"
         [] OTHER -> "accept"

Agrees(verdict, outcome) == CASE verdict = "accept" -> outcome = "ok" [] verdict = "reject" -> outcome = "assert" [] OTHER -> outcome \in {"ok", "assert", "other"}
=============================================================================
