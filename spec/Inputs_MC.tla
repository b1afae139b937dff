------------------------------ MODULE Inputs_MC ------------------------------
(* Enumerates deviations from valid parameters and problems, and the calls on a solver object. *)
EXTENDS Inputs, TLC, Json
CONSTANTS MaxDev, MaxCalls
VARIABLES dev, calls, st, work

Tests == [ max_iterations |-> {"-2147483648", "-1", "0", "1", "40"}, max_qp_iterations |-> {"-1", "0", "1", "40"},
           termination_kkt_tolerance |-> {"-1e-9", "0", "1e-10", "1", "1e30", "nan"}, absolute_exit_tol |-> {"-1", "0", "1e-300", "1e6", "nan"},
           relative_exit_tol |-> {"-1e-12", "0", "0.5", "1", "0x1.0000000000001p0", "nan"}, absolute_first_derivative_tol |-> {"-1e-300", "0", "1e3", "nan"},
           max_line_search_iterations |-> {"-1", "0", "1", "60"}, armijo_search_tau |-> {"-0.5", "0", "1e-3", "0.999", "1", "1.5", "nan"},
           equality_penalty_initial |-> {"-1", "0", "1e-30", "1e6", "nan"}, equality_penalty_scale_factor |-> {"0.999999", "1", "2", "nan"},
           equality_penalty_rho |-> {"-0.1", "0", "0.999", "1", "nan"}, lambda_initial |-> {"-1", "0.5", "1", "1.5", "nan"},
           lambda_failure_init |-> {"-1e-9", "0", "1", "5", "nan"}, lambda_decrease_on_success |-> {"-0.1", "0", "0.999", "1", "nan"},
           lambda_decrease_on_restore |-> {"-0.1", "0", "0.999", "1", "nan"}, max_lambda |-> {"-1", "0", "1e-3", "1e6", "nan", "inf"},
           min_lambda |-> {"-1", "0.5", "1", "2", "nan", "-inf"} ]
With(p, d) == [f \in DOMAIN p |-> IF f \in DOMAIN d THEN d[f] ELSE p[f]]

(* The checks as the code makes them, one after another. *)
Checks(p) == << NLe("0", p.max_iterations), NLe("1", p.max_qp_iterations), NLt("0", p.termination_kkt_tolerance), NLt("0", p.absolute_exit_tol), NLe("0", p.max_line_search_iterations),
  NLe("0", p.relative_exit_tol), NLe(p.relative_exit_tol, "1"), NLe("0", p.absolute_first_derivative_tol), NLt("0", p.armijo_search_tau), NLt(p.armijo_search_tau, "1"),
  NLt("0", p.equality_penalty_initial), NLe("1", p.equality_penalty_scale_factor), NLe("0", p.equality_penalty_rho), NLt(p.equality_penalty_rho, "1"), NLe("0", p.max_lambda),
  NLe(p.min_lambda, p.max_lambda), NLe(p.min_lambda, p.lambda_initial), NLe(p.lambda_initial, p.max_lambda), NLe("0", p.lambda_failure_init),
  NLe("0", p.lambda_decrease_on_success), NLt(p.lambda_decrease_on_success, "1"), NLe("0", p.lambda_decrease_on_restore), NLt(p.lambda_decrease_on_restore, "1") >>
Passes(p) == \A k \in DOMAIN Checks(p) : Checks(p)[k]

(* Calls on the interior point solver; work: what has been computed for ("none": nothing yet). *)
Call == {"setup_A", "setup_B", "setup_bad", "solve", "solve_bad", "vars", "vars_bad"}
Effect(s, c) == CASE c = "setup_A" -> "A" [] c = "setup_B" -> "B" [] OTHER -> s
Init == dev = <<>> /\ calls = <<>> /\ st = "none" /\ work = "none"
Deviate == /\ calls = <<>> /\ Len(dev) < MaxDev
           /\ \E k \in DOMAIN NLSFields : (dev # <<>> => \E j \in DOMAIN NLSFields : NLSFields[j] = dev[Len(dev)][1] /\ j < k) /\ \E v \in Tests[NLSFields[k]] : dev' = Append(dev, <<NLSFields[k], v>>)
           /\ UNCHANGED <<calls, st, work>>
Do == /\ dev = <<>> /\ Len(calls) < MaxCalls
      /\ \E c \in Call : /\ calls' = Append(calls, c) /\ st' = Effect(st, c)
                         /\ work' = (IF c = "solve" /\ st # "none" THEN st ELSE work)
      /\ UNCHANGED dev
Spec == Init /\ [][Deviate \/ Do]_<<dev, calls, st, work>>

Params == With(NLSDefault, [f \in {dev[k][1] : k \in DOMAIN dev} |-> LET k == CHOOSE k \in DOMAIN dev : dev[k][1] = f IN dev[k][2]])
TableMatchesChecks == Passes(Params) <=> ValidNLS(Params)
DefaultsValid == ValidNLS(NLSDefault) /\ ValidIP(IPDefault)
OnlyValidHeld == st \in {"none", "A", "B"} /\ work \in {"none", "A", "B"} /\ (work # "none" => \E k \in DOMAIN calls : calls[k] = "solve")
RejectedChangesNothing == [][(\E c \in {"setup_bad", "solve_bad", "vars_bad"} : calls' = Append(calls, c)) => st' = st /\ work' = work]_<<dev, calls, st, work>>
Dump == (dev # <<>> => PrintT("VERIF-DEV " \o ToJson(dev))) /\ (Len(calls) = MaxCalls => PrintT("VERIF-CALLS " \o ToJson(calls)))
=============================================================================
