------------------------------ MODULE Cut_Trace ------------------------------
(***************************************************************************)
(* Recorded solves: the full run of a scenario first, then its cut runs.   *)
(* The budget runs give the estimate the full run holds after each         *)
(* iteration.  Arguments, log entries and estimates are digests of all     *)
(* their bits.                                                             *)
(***************************************************************************)
EXTENDS TraceBase, Integers, Sequences, FiniteSets, TLC

K == INSTANCE Cut WITH Points <- {}, MaxIter <- 1, MaxTries <- 1, MaxDamp <- 1, Fault <- "none", accept <- <<>>, move <- <<>>, err <- <<>>, flat <- {}, f <- <<>>, c <- <<>>, cut <- <<>>

VARIABLES full, held
vars == <<l, viol, hits, full, held>>
Init == BaseInit /\ full = <<>> /\ held = [n \in {} |-> ""]

F == full[1]
Full == /\ ev.e = "full" /\ full = <<>>
        /\ Consume({}, {"what_" \o ev.what} \cup Opt(ev.more # "", ev.more) \cup Opt(Len(ev.log) > 3, "long")
                       \cup (IF ev.what = "nls" THEN {"res_" \o ev.log[i].res : i \in DOMAIN ev.log} \cup {"state_" \o ev.log[i].state : i \in DOMAIN ev.log} ELSE {}))
        /\ full' = <<ev>> /\ UNCHANGED held
Held(n) == IF n \in DOMAIN held THEN held[n] ELSE "none"
Rule == CASE ev.kind = "budget" -> K!BudgetRule(ev, F, ev.v, LAMBDA n : ev.final)
          [] ev.kind = "kkt" -> K!ExitRule(ev, F, "SATISFIED_KKT_TOL", Held)
          [] OTHER -> K!Holds(ev, F, [kind |-> ev.kind, v |-> ev.v], Held)
Ends == ev.term # F.term \/ Len(ev.log) < Len(F.log)
Run == /\ ev.e = "cut" /\ full # <<>>
       /\ LET n == Len(ev.log)
              first == ev.kind = "budget" /\ n \notin DOMAIN held
          IN  /\ Consume(Failed("C27", (ev.kind :> Rule) @@ [estimate |-> ev.kind = "budget" => (first \/ held[n] = ev.final), whole |-> (ev.kind = "budget" /\ n = Len(F.log)) => ev.final = F.final]),
                         {"cut_" \o ev.what \o "_" \o ev.kind} \cup Opt(Ends, "ends_" \o ev.what \o "_" \o ev.kind) \cup Opt(Ends /\ n > 1 /\ ev.kind # "budget", "late_" \o ev.what \o "_" \o ev.kind) \cup Opt(~Ends, "never_" \o ev.what))
              /\ held' = IF first THEN (n :> ev.final) @@ held ELSE held
       /\ UNCHANGED full
End == ev.e = "end" /\ Consume({}, {}) /\ full' = <<>> /\ held' = [n \in {} |-> ""]
Next == More /\ (Full \/ Run \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
