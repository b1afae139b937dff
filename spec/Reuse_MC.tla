------------------------------ MODULE Reuse_MC ------------------------------
(* Histories of calls on one object, with at most one reset left out. *)
EXTENDS Reuse, TLC, Json
CONSTANTS Depth, Family

VARIABLES drop, hist, tag, n, call, pc, stale
vars == <<drop, hist, tag, n, call, pc, stale>>

Slots == IF Family = "ip" THEN IPSlots \cup NSSlots ELSE NLSlots
Shapes == {"plain", "eq", "bounds", "both"}
Letters ==
  IF Family = "ip" THEN
    {[op |-> "ip", shape |-> s, how |-> h] : s \in Shapes, h \in {"done", "corrector", "short", "reject", "raise"}} \cup
    {[op |-> "ip", shape |-> s, how |-> "user"] : s \in {"bounds"}} \cup
    {[op |-> "ns", shape |-> s, how |-> h] : s \in {"eq", "eq2"}, h \in {"done", "indefinite"}}
  ELSE {[op |-> "solve", shape |-> s, how |-> h] : s \in {"eq", "both"}, h \in {"done", "short", "restore", "throw_lin", "throw_try", "stop", "reject"}} \cup
       {[op |-> "eval", shape |-> "eq", how |-> "done"]}
Steps(l) ==
  CASE l.op = "ip" -> IPCall(IF l.how = "user" THEN "USER_PROVIDED" ELSE IF l.how = "corrector" /\ l.shape \in {"eq", "both"} THEN "SOLVE_EQUALITY_CONSTRAINED" ELSE "NAIVE", IF l.how = "corrector" THEN "PREDICTOR_CORRECTOR" ELSE "COMPLEMENTARITY", IF l.how = "short" THEN 1 ELSE 2)
    [] l.op = "ns" -> NSCall
    [] l.op = "eval" -> EvalCall
    [] OTHER -> NLSCall(IF l.how = "restore" THEN 2 ELSE 1, l.how # "restore")
(* Where the call stops early: the number of steps it performs. *)
Stops(l) ==
  LET all == Len(Steps(l)) IN
  CASE l.how = "reject" -> IF l.op = "ip" THEN Len(Setup) + 1 ELSE 1
    [] l.how = "raise" -> Len(Setup) + 1 + 2 + 1 + 2     \* the factorisation of the first iteration
    [] l.how = "indefinite" -> 4
    [] l.how = "throw_lin" -> Len(Begin) + 2
    [] l.how = "throw_try" -> Len(Begin) + Len(Linearize) + Len(Direction) + 3
    [] l.how \in {"stop", "short"} /\ l.op = "solve" -> Len(Begin) + Len(Linearize) + Len(Direction) + Len(Search(1)) + Len(Accept)
    [] OTHER -> all

(* Leaving out a reset: writes that do not depend on anything the call computed are skipped. *)
Effect(st) == IF drop = "none" THEN st.writes
              ELSE IF st.reads \subseteq {"prob", "size"} THEN st.writes \ {drop} ELSE st.writes
Init == drop \in {"none"} \cup (Resets \cap Slots) /\ hist = <<>> /\ tag = [s \in Slots |-> 0] /\ n = 0 /\ call = <<>> /\ pc = 0 /\ stale = FALSE
Start(l) == /\ call = <<>> /\ n < Depth
            /\ n' = n + 1 /\ hist' = Append(hist, l) /\ call' = SubSeq(Steps(l), 1, Stops(l)) /\ pc' = 1
            /\ UNCHANGED <<drop, tag, stale>>
Step == /\ call # <<>> /\ LET st == call[pc] IN
          /\ stale' = (stale \/ \E q \in st.reads : tag[q] # n)
          /\ tag' = [q \in Slots |-> IF q \in Effect(st) THEN n ELSE tag[q]]
          /\ IF pc = Len(call) THEN call' = <<>> /\ pc' = 0 ELSE pc' = pc + 1 /\ UNCHANGED call
          /\ UNCHANGED <<drop, hist, n>>
Next == (\E l \in Letters : Start(l)) \/ Step
Spec == Init /\ [][Next]_vars

Memoryless == drop = "none" => ~stale
(* Every reset is needed: somewhere its omission is a stale read.  Prints all histories of the specified solver. *)
Histories == (drop = "none" /\ call = <<>> /\ n > 0) => PrintT("VERIF-REUSE " \o ToJson(hist))
Bound == ~(stale /\ call = <<>>) \/ drop = "none"
Distinguished == (drop # "none" /\ stale /\ call = <<>>) => PrintT("VERIF-DROP " \o ToJson([drop |-> drop, hist |-> hist]))
=============================================================================
