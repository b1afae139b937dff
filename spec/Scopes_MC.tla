------------------------------ MODULE Scopes_MC ------------------------------
EXTENDS Scopes, TLC, Json
CONSTANTS MaxLen, MaxScopes
VARIABLES st, prog
Init == st = Start /\ prog = <<>>
(* Tokens needed to finish: prunes programs that cannot be completed. *)
Need(stack) == LET S[k \in 0..Len(stack)] == IF k = 0 THEN 0 ELSE S[k-1] + (IF stack[k].k = "guard" THEN 2 ELSE 1) IN S[Len(stack)]
Next == \E t \in Tokens : /\ May(st.stack, t) /\ (t = "open" => st.opened < MaxScopes)
                          /\ LET n == Apply(st, t) IN st' = n /\ prog' = Append(prog, t) /\ Len(prog) + 1 + Need(n.stack) <= MaxLen
Spec == Init /\ [][Next]_<<st, prog>>
Finished == st.stack = <<>> /\ prog # <<>>
RecordedIffClosed == st.out = Closes(Start, prog)
NoDuplicates == \A i, j \in DOMAIN st.out : i # j => st.out[i] # st.out[j]
Consistent == Run(Start, prog) = st
Dump == Finished /\ st.opened > 0 => PrintT("VERIF-PROG " \o ToJson(prog))
=============================================================================
