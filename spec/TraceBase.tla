----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Common part of the trace specifications.                                *)
(*                                                                         *)
(* A trace is a sequence of recorded events, grouped into scenarios.  The  *)
(* trace specifications consume one event per step.  A rule of the         *)
(* specification that is false for a recorded step is added to viol and    *)
(* the recorded state is adopted, so that the rest of the trace is still   *)
(* checked.  hits counts which rules had something to decide.  The result  *)
(* is printed in the last state; the runner requires that all events were  *)
(* consumed.                                                               *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils
LOCAL INSTANCE FiniteSets

VARIABLES l, viol, hits

Trace == ndJsonDeserialize(IOEnv.TRACE)
Len0 == Len(Trace)
ev == Trace[l]
More == l <= Len0

BaseInit == l = 1 /\ viol = {} /\ hits = [h \in {} |-> 0]

(* The check of one property evaluates only the rules of that property. *)
Want(prefix) == "PROP" \notin DOMAIN IOEnv \/ IOEnv.PROP \in {"all", prefix}
Failed(prefix, rules) == IF ~Want(prefix) THEN {} ELSE {prefix \o "." \o r : r \in {q \in DOMAIN rules : ~rules[q]}}
Record(names) == viol' = IF Cardinality(viol) > 200 THEN viol ELSE viol \cup {[rule |-> n, scn |-> ev.scn, line |-> l] : n \in names}
Count(H) == hits' = [h \in (DOMAIN hits) \cup H |-> (IF h \in DOMAIN hits THEN hits[h] ELSE 0) + (IF h \in H THEN 1 ELSE 0)]
Consume(names, H) == l' = l + 1 /\ Record(names) /\ Count(H)
Opt(c, h) == IF c THEN {h} ELSE {}

(* Evaluated as an invariant: prints the outcome when the whole trace was consumed. *)
Outcome == (l = Len0 + 1) => PrintT("VERIF-RESULT " \o ToJson([lines |-> l - 1, viol |-> viol, hits |-> hits]))
=============================================================================
