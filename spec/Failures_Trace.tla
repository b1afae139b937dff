--------------------------- MODULE Failures_Trace ---------------------------
(***************************************************************************)
(* Recorded runs in which one call to a function of the user fails.  ref   *)
(* is the run in which none fails; each fault run repeats it with call k   *)
(* throwing.  Estimates and results are digests of all their bits.         *)
(***************************************************************************)
EXTENDS TraceBase, Integers, Sequences, FiniteSets, TLC

F == INSTANCE Failures WITH Costs <- {}, Equalities <- {}, Retraction <- FALSE, Callback <- FALSE, MaxIter <- 1, MaxTries <- 1, Fault <- "none",
       phase <- "done", todo <- {}, held <- 0, cand <- 0, fresh <- 0, iter <- 0, tries <- 0, calls <- <<>>, out <- 0

VARIABLE ref       \* the run without failures, by kind of run
vars == <<l, viol, hits, ref>>
Init == BaseInit /\ ref = <<>>

(* Verdicts a solve may not give when the problem could not be evaluated where it starts. *)
Claims == {"SATISFIED_ABSOLUTE_TOL", "SATISFIED_RELATIVE_TOL", "SATISFIED_FIRST_ORDER_TOL", "MAX_ITERATIONS", "MAX_LAMBDA", "USER_CALLBACK"}
Nres == ev.costs + ev.eqs
Ref == /\ ev.e = "ref"
       /\ Consume(Failed("C24", [groups |-> (ev.caught = "none" /\ ~ev.eval) => F!Grouped(ev.kinds, Nres, ev.retr, ev.cb),
                                 estimate_changes |-> ~ev.eval => F!ChangesLegally(ev.kinds, ev.held),
                                 evaluation_calls |-> (ev.eval /\ ev.caught = "none") => (Len(ev.kinds) = Nres /\ \A i \in DOMAIN ev.kinds : ev.kinds[i] = "try"),
                                 bad_start_reported |-> (~ev.finite /\ ~ev.eval /\ ev.caught = "none") => ev.term \notin Claims,
                                 bad_start_kept |-> (~ev.finite /\ ~ev.eval) => (ev.final = ev.x0 /\ \A i \in DOMAIN ev.kinds : ev.kinds[i] # "try"),
                                 own_errors |-> ev.caught \in {"none", "assertion:library", "factorisation:library"}]),
                  Opt(~ev.finite /\ ~ev.eval, "bad_start") \cup Opt(~ev.eval, "term_" \o ev.term) \cup Opt(~ev.eval /\ ev.retr, "with_retraction") \cup Opt(~ev.eval /\ ev.cb, "with_callback") \cup Opt(ev.eqs > 0, "with_equalities"))
       /\ ref' = <<ev>>

R == ref[1]
Mine == ref # <<>> /\ R.eval = ev.eval /\ R.scn = ev.scn
(* Which iteration (number of callbacks or of linearisations before) the failing call belonged to. *)
Late == R.held[ev.k] # R.held[1]
Fault == /\ ev.e = "fault" /\ Mine
         /\ Consume(Failed("C24", [reaches_caller |-> ev.caught = ev.want,
                                   nothing_after |-> F!Surfaces(ev.k, ev.calls),
                                   same_until_then |-> ev.prefix /\ (~ev.eval => ev.at = R.held[ev.k]),
                                   estimate_intact |-> F!Intact(ev.at, ev.final),
                                   usable_afterwards |-> ev.again = R.out /\ (~ev.eval => ev.again_held = R.final)]),
                    {"kind_" \o ev.kind, "at_" \o R.kinds[ev.k] \o (IF ev.eval THEN "_eval" ELSE "")} \cup Opt(ev.reused, "reused") \cup Opt(~ev.eval /\ Late, "estimate_moved")
                    \cup Opt(~ev.eval /\ ev.k > 1 /\ R.kinds[ev.k] = "try" /\ \E i \in 1..(ev.k - 1) : R.kinds[i] = "tell", "second_iteration"))
         /\ UNCHANGED ref
Unexplained == ev.e = "fault" /\ ~Mine /\ Consume({"C24.unexplained"}, {}) /\ UNCHANGED ref
End == ev.e = "end" /\ Consume({}, {}) /\ ref' = <<>>
Next == More /\ (Ref \/ Fault \/ Unexplained \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
