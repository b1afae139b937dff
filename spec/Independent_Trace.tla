-------------------------- MODULE Independent_Trace --------------------------
(* Recorded mixtures of jobs against the same jobs running alone. *)
EXTENDS TraceBase, Integers, Sequences, FiniteSets, TLC

I == INSTANCE Independent WITH Static <- {}, PerThread <- {}
vars == <<l, viol, hits>>
Init == BaseInit

Ran == {j \in DOMAIN ev.jobs : ev.jobs[j].ran}
Switches == Cardinality({i \in 2..Len(ev.order) : ev.order[i].j # ev.order[i - 1].j})
Nested == {i \in DOMAIN ev.nests : ev.jobs[ev.nests[i].child].ran}
Deep == \E i, k \in Nested : ev.nests[k].parent = ev.nests[i].child
Roots == {j \in DOMAIN ev.jobs : \A i \in DOMAIN ev.nests : ev.nests[i].child # j}
(* In a nested mixture, the steps of a job started inside a call come between two steps of the job that made the call. *)
Bracketed == \A i \in Nested : LET c == ev.nests[i].child p == ev.nests[i].parent mine == {k \in DOMAIN ev.order : ev.order[k].j = c} IN
               mine # {} => LET lo == CHOOSE k \in mine : \A q \in mine : k <= q hi == CHOOSE k \in mine : \A q \in mine : q <= k IN \A k \in lo..hi : ev.order[k].j # p
Mix == /\ ev.e = "mix"
       /\ Consume(Failed("C22", [ same_result |-> \A j \in Ran : ev.jobs[j].mixed = ev.jobs[j].alone,
                                  same_calls |-> \A j \in Ran : I!AsAlone(ev.order, j, ev.jobs[j].steps),
                                  everything_ran |-> Roots \subseteq Ran,
                                  bracketed |-> ev.mode = "nest" => Bracketed,
                                  problem_untouched |-> ev.untouched ]),
                  {"mode_" \o ev.mode} \cup {"job_" \o ev.jobs[j].kind : j \in Ran} \cup Opt(ev.mode = "turns" /\ Switches >= 4, "interleaved") \cup {"nested_in_" \o ev.nests[i].at : i \in Nested}
                  \cup {"nested_" \o ev.jobs[ev.nests[i].child].kind : i \in Nested} \cup Opt(Deep, "deep") \cup {"cls_" \o ev.jobs[j].cls : j \in Ran})
End == ev.e = "end" /\ Consume({}, {})
Next == More /\ (Mix \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
