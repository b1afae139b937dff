---------------------------- MODULE Observe_Trace ----------------------------
(***************************************************************************)
(* Recorded solves, each unwatched and under every way of watching it, in  *)
(* builds with and without tracing, serialisation and debug assertions.    *)
(* The first run of a scenario is the reference.  Arguments, log entries   *)
(* and estimates are digests of all their bits.                            *)
(***************************************************************************)
EXTENDS TraceBase, Integers, Sequences, FiniteSets, TLC

O == INSTANCE Observe WITH Points <- {}, MaxIter <- 1, MaxTries <- 1, Fault <- "none", accept <- <<>>, move <- <<>>, refuse <- {}, a <- <<>>, b <- <<>>, obs <- {}

VARIABLE ref
vars == <<l, viol, hits, ref>>
Init == BaseInit /\ ref = <<>>

Tells == {"tell", "eig_tell", "heavy", "all"}
Eigs == {"eig", "eig_tell", "all"}
Nls == ev.kind = "nls"
Whole == ev.term \notin {"assertion", "exception"}
Own == [told |-> Whole => O!ToldAll(ev, Nls /\ ev.mode \in Tells), in_time |-> Whole => O!ToldInTime(ev),
        eigenvalues |-> (Nls /\ Whole) => (O!EigsAsAsked(ev, ev.mode \in Eigs) /\ \A i \in DOMAIN ev.tells : ev.tells[i].eig = (ev.mode \in Eigs)), untouched |-> ev.untouched]
First == /\ ev.e = "run" /\ ref = <<>>
         /\ Consume(Failed("C26", Own @@ [reference |-> ev.mode = "none"]), {"kind_" \o ev.kind, "term_" \o ev.term} \cup Opt(ev.eqs /\ Nls, "equalities") \cup Opt(ev.ineq /\ Nls, "bounds") \cup Opt(ev.retr, "retraction") \cup Opt(Len(ev.log) > 2 /\ Nls, "long"))
         /\ ref' = <<ev>>
R == ref[1]
Again == /\ ev.e = "run" /\ ref # <<>>
         /\ Consume(Failed("C26", Own @@ [same_calls |-> O!SameCalls(R, ev), same_log |-> O!SameLog(R, ev), same_end |-> O!SameEnd(R, ev)]),
                    {"mode_" \o ev.mode, "build_" \o ev.build} \cup Opt(ev.flat /\ R.term # "QP_INDEFINITE", "flat"))
         /\ UNCHANGED ref
End == ev.e = "end" /\ Consume({}, {}) /\ ref' = <<>>
Next == More /\ (First \/ Again \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
