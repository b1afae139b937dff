---------------------------- MODULE Bounds_Trace ----------------------------
(* Recorded histories of constraint objects against Bounds. *)
EXTENDS Bounds, TraceBase, TLC

VARIABLE c
vars == <<l, viol, hits, c>>
Init == BaseInit /\ c = [v |-> 0, a |-> "0", b |-> "0"]
Got == [v |-> ev.v, a |-> ev.a, b |-> ev.b]

Make ==
  /\ ev.e = "new"
  /\ LET want == CASE ev.op = "le" -> LE(ev.i, ev.p) [] ev.op = "ge" -> GE(ev.i, ev.p) [] OTHER -> [v |-> ev.i, a |-> ev.a0, b |-> ev.p] IN
     Consume(Failed("C16", [variable |-> ev.v = want.v,
                            bound |-> IF ev.op = "con" THEN NEq(ev.a, want.a) /\ NEq(ev.b, want.b) ELSE SameSet(Got, want)]), {"new_" \o ev.op})
  /\ c' = Got
Feas == /\ ev.e = "feas" /\ UNCHANGED c
        /\ Consume(Failed("C16", [feasible |-> ev.ans \in Answers(c, ev.x)]),
                   Opt(Cardinality(Answers(c, ev.x)) = 1, "feasible_decided") \cup Opt(NEq(Value(c, ev.x), "0"), "on_the_bound") \cup Opt(NEq(c.a, "0"), "zero_coefficient"))
Clmp == /\ ev.e = "clamp" /\ UNCHANGED c
        /\ IF NEq(c.a, "0") THEN Consume(Failed("C16", [zero_refused |-> ev.what = "assertion"]), {"zero_refused"})
           ELSE IF ev.what # "none" THEN Consume({"C16.clamp_exception"}, {})
           ELSE Consume(Failed("C16", ClampRules(c, ev.x, ev.y)), Opt(Holds(c, ev.x), "clamp_inside") \cup Opt(~Holds(c, ev.x), "clamp_outside"))
Move == /\ ev.e = "shift"
        /\ Consume(Failed("C16", ShiftRules(c, ev.p, Got)), {"shift_" \o ev.how})
        /\ c' = Got
End == ev.e = "end" /\ Consume({}, {}) /\ UNCHANGED c
Next == More /\ (Make \/ Feas \/ Clmp \/ Move \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
