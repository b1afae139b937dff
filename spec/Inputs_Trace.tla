---------------------------- MODULE Inputs_Trace ----------------------------
(* Calls with valid and malformed arguments against Inputs. *)
EXTENDS Inputs, TraceBase, TLC

vars == <<l, viol, hits>>
Init == BaseInit

SolveEv ==   \* a solve of a well-formed nonlinear problem
  /\ ev.e = "nls"
  /\ LET v == IF ev.guess # ev.dim THEN "reject" ELSE NLSVerdict(ev.p) IN
     Consume(Failed("C21", [parameters |-> Agrees(v, ev.out), work_before_rejection |-> v = "reject" => ev.evals = 0 /\ ev.callbacks = 0,
                            estimate_changed |-> v = "reject" => ev.same, guess_changed |-> ev.caller]),
             {"nls_" \o v} \cup Opt(ev.guess # ev.dim, "guess_dimension") \cup {"nls_out_" \o ev.out})
AfterEv == ev.e = "after" /\ Consume(Failed("C21", [solver_damaged |-> ev.again]), {"solved_after"})

ProblemEv ==   \* construction and solve of a nonlinear problem
  /\ ev.e = "prob"
  /\ LET cv == CtorVerdict(ev.prob)  pv == ProblemVerdict(ev.prob, ev.guess) IN
     Consume(Failed("C21", [construct |-> Agrees(cv, ev.ctor), problem |-> ev.ctor = "ok" => Agrees(pv, ev.out), wrong_argument |-> (ev.ctor # "ok" \/ pv = "reject") => ev.wrong = 0,
                            nothing_done |-> (ev.ctor # "ok" \/ ev.guess # ev.prob.dim) => ev.evals = 0, callback |-> (ev.ctor # "ok" \/ pv = "reject") => ev.callbacks = 0, guess_changed |-> ev.caller]),
             {"ctor_" \o cv, "prob_" \o pv} \cup Opt(ev.prob.moved, "moved_residual") \cup Opt(ev.ctor = "ok" /\ ev.prob.zero, "zero_coefficient")
             \cup Opt(ev.ctor = "ok" /\ ~IndicesIn(ev.prob.vars, ev.prob.dim), "bad_bound_index") \cup Opt(ev.ctor = "ok" /\ \E k \in DOMAIN ev.prob.eqs : ~IndicesIn(ev.prob.eqs[k], ev.prob.dim), "bad_equality_index")
             \cup Opt(ev.ctor = "ok" /\ \E k \in DOMAIN ev.prob.costs : ~IndicesIn(ev.prob.costs[k], ev.prob.dim), "bad_cost_index"))

SetupEv ==
  /\ ev.e = "ip" /\ ev.call = "setup"
  /\ LET v == IF ev.null THEN "reject" ELSE SetupVerdict(ev.q) IN
     Consume(Failed("C21", [setup |-> Agrees(v, ev.out), held |-> ev.after \in AfterSetup(ev.before, IF ev.out = "ok" THEN "accept" ELSE "reject", ev.name)]),
             {"setup_" \o v} \cup Opt(v = "reject" /\ ev.before # "none", "rejected_after_good"))
IPSolveEv ==
  /\ ev.e = "ip" /\ ev.call = "solve"
  /\ LET v == SolveVerdict(ev.before, ev.q, ev.p, ev.positive, ev.user) IN
     Consume(Failed("C21", [solve |-> Agrees(v, ev.out), held |-> ev.after = ev.before, changed_by_rejection |-> ~ValidIP(ev.p) => ev.kept, influenced |-> ev.same]),
             {"ipsolve_" \o v} \cup Opt(~ev.positive, "slacks_not_positive") \cup Opt(ev.before = "none", "nothing_set_up") \cup Opt(ev.before # "none" /\ ev.q.zero, "ip_zero_coefficient"))
VarsEv ==
  /\ ev.e = "ip" /\ ev.call = "vars"
  /\ LET v == SetVarsVerdict(ev.before, ev.q, ev.n) IN
     Consume(Failed("C21", [variables |-> Agrees(v, ev.out), held |-> ev.after = ev.before, changed_by_rejection |-> v = "reject" => ev.kept]), {"vars_" \o v})
CtorEv == ev.e = "ctor" /\ Consume(Failed("C21", [shape |-> Agrees(SetupVerdict(ev.q), ev.ip), null_space_shape |-> Agrees(NullVerdict(ev.q), ev.ns)]), {"shape_" \o SetupVerdict(ev.q), "null_" \o NullVerdict(ev.q)})

ResEv ==
  /\ ev.e = "res"
  /\ LET mv == MakeVerdict(ev.q)  cv == CallVerdict(ev.q) IN
     Consume(Failed("C21", [index_count |-> Agrees(mv, ev.make), residual_call |-> ev.make = "ok" => Agrees(cv, ev.out), wrong_argument |-> ev.wrong = 0, outside |-> ev.inside]),
             {"make_" \o mv} \cup Opt(ev.make = "ok", "res_" \o ev.q.op \o "_" \o cv))
BoundEv == ev.e = "bound" /\ Consume(Failed("C21", [clamp |-> Agrees(IF NEq(ev.a, "0") THEN "reject" ELSE "accept", ev.clamp), shift |-> Agrees(IF IndicesIn(ev.vars, ev.n) THEN "accept" ELSE "reject", ev.shift)]),
                                    {"bound"} \cup Opt(~IndicesIn(ev.vars, ev.n), "bound_outside") \cup Opt(NEq(ev.a, "0"), "bound_zero"))
End == ev.e = "end" /\ Consume({}, {})
Next == More /\ (SolveEv \/ AfterEv \/ ProblemEv \/ SetupEv \/ IPSolveEv \/ VarsEv \/ CtorEv \/ ResEv \/ BoundEv \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
