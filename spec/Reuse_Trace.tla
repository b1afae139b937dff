---------------------------- MODULE Reuse_Trace ----------------------------
(***************************************************************************)
(* Recorded histories: the result of a call is a function of its inputs.   *)
(* memo maps the inputs of a call (problem, parameters, starting point) to *)
(* the outcome first seen for them; the same call on the re-used object,   *)
(* on a fresh object, in another history, or with other rubbish in unused  *)
(* memory has to give the same outcome, bit for bit.                       *)
(***************************************************************************)
EXTENDS TraceBase, Integers, Sequences, FiniteSets, TLC

VARIABLES memo, before
vars == <<l, viol, hits, memo, before>>
Init == BaseInit /\ memo = [k \in {} |-> ""] /\ before = <<>>

Known == ev.key \in DOMAIN memo
Op == /\ ev.e = "op"
      /\ Consume(Failed("C17", [same_as_fresh |-> ev.shared = ev.fresh,
                                function_of_inputs |-> Known => memo[ev.key] = ev.fresh,
                                same_verdict |-> ev.cls = ev.cls2,
                                problem_untouched |-> ev.problem]),
                 {"op_" \o ev.kind, "outcome_" \o ev.cls} \cup Opt(Known, "seen_before") \cup Opt(ev.poison # 0, "rubbish_in_memory")
                 \cup (IF before = <<>> THEN {} ELSE {"after_" \o before[1].cls} \cup Opt(before[1].shape # ev.shape, "after_other_shape")))
      /\ memo' = (ev.key :> (IF Known THEN memo[ev.key] ELSE ev.fresh)) @@ memo
      /\ before' = <<[cls |-> ev.cls, shape |-> ev.shape]>>
End == ev.e = "end" /\ Consume({}, {}) /\ before' = <<>> /\ UNCHANGED memo
Next == More /\ (Op \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
