-------------------------------- MODULE Cut ---------------------------------
(***************************************************************************)
(* Exit settings.                                                          *)
(*                                                                         *)
(* The same solve is run with all exits as far away as they can be (f, the *)
(* full run) and with one of them drawn in (c, the cut run): the iteration *)
(* budget, the budget of the line search, a tolerance, the largest damping,*)
(* a callback that says stop.  What the user functions answer is any       *)
(* function of where they are called.  A cut run is a prefix of the full   *)
(* one: exits end a run and do nothing else.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Points, MaxIter, MaxTries, MaxDamp,
          Fault            \* "none", or a way in which an exit setting leaks into the steps

VARIABLES accept,          \* accept[x][k]: is the k-th candidate from the estimate x taken
          move,            \* move[x][w]: the full step of an estimate under a damping
          err,             \* err[x]: the errors there, 0 or 1
          flat,            \* the estimates at which the slopes vanish
          f, c, cut
vars == <<accept, move, err, flat, f, c, cut>>

(* A cut: one exit setting and its value. *)
Free == [kind |-> "none", v |-> 0]
Cuts == {[kind |-> "budget", v |-> n] : n \in 0..(MaxIter - 1)} \cup {[kind |-> "tries", v |-> n] : n \in 1..(MaxTries - 1)}
        \cup {[kind |-> "damping", v |-> n] : n \in 1..(MaxDamp - 1)} \cup {[kind |-> "stop", v |-> n] : n \in 1..MaxIter}
        \cup {[kind |-> k, v |-> 0] : k \in {"abs", "grad"}}
Has(s, k) == s.kind = k
Budget(s) == IF Has(s, "budget") THEN s.v ELSE MaxIter
Tries(s) == IF Has(s, "tries") THEN s.v ELSE MaxTries
Damping(s) == IF Has(s, "damping") THEN s.v ELSE MaxDamp

Start(x, s) == [pc |-> IF Budget(s) = 0 THEN "MAX_ITERATIONS" ELSE "lin", x |-> x, cand |-> x, damp |-> 0, tries |-> <<>>, log |-> <<>>, calls |-> <<>>, ests |-> <<x>>]
Init == /\ accept \in [Points -> [1..MaxTries -> BOOLEAN]] /\ move \in [Points -> [0..1 -> Points]]
        /\ err \in [Points -> 0..1] /\ flat \in SUBSET Points
        /\ cut \in Cuts /\ \E x \in Points : f = Start(x, Free) /\ c = Start(x, cut)

Min2(p, q) == IF p < q THEN p ELSE q
(* A step of the run s under the exit setting t. *)
Lin(s, t) ==
  LET w == IF Fault = "budget_scales_damping" /\ Budget(t) < MaxIter THEN 1 ELSE s.damp
  IN  [s EXCEPT !.calls = Append(@, <<"lin", s.x>>), !.cand = move[s.x][Min2(w, 1)], !.tries = <<>>, !.pc = "try"]
Finish(s, t, res) ==
  LET e == [from |-> s.x, damp |-> s.damp, tries |-> s.tries, res |-> res]
      n == Len(s.log) + 1
      x1 == IF res = "ok" THEN s.cand ELSE s.x
      d1 == IF res = "ok" THEN 0 ELSE IF res = "max" THEN s.damp + 1 ELSE s.damp
      s1 == [s EXCEPT !.log = Append(@, e), !.x = x1, !.damp = d1, !.ests = Append(@, x1)]
      exit == IF res = "flat" THEN "SATISFIED_FIRST_ORDER_TOL"
              ELSE IF res = "ok" /\ Has(t, "abs") /\ err[x1] = 0 THEN "SATISFIED_ABSOLUTE_TOL"
              ELSE IF res = "max" /\ d1 > Damping(t) THEN "MAX_LAMBDA"
              ELSE IF Has(t, "stop") /\ n = t.v THEN "USER_CALLBACK"
              ELSE IF n = Budget(t) THEN "MAX_ITERATIONS" ELSE "lin"
  IN  [s1 EXCEPT !.pc = exit, !.x = IF Fault = "stop_returns" /\ exit = "USER_CALLBACK" THEN s.x ELSE @]
Try(s, t) ==
  LET s1 == [s EXCEPT !.calls = Append(@, <<"try", s.cand, Len(s.tries)>>), !.tries = Append(@, s.cand)]
      k == Len(s1.tries)
      taken == accept[s.x][k] \/ (Fault = "tolerance_accepts" /\ Has(t, "abs") /\ err[s.cand] = 0)
                              \/ (Fault = "last_iteration_moves" /\ Len(s.log) + 1 = Budget(t))
  IN  IF Has(t, "grad") /\ s.x \in flat THEN Finish(s1, t, "flat")
      ELSE IF taken THEN Finish(s1, t, "ok")
      ELSE IF k < Tries(t) THEN s1 ELSE Finish(s1, t, "max")
Ended(s) == s.pc \notin {"lin", "try"}
Step(s, t) == IF Ended(s) THEN s ELSE IF s.pc = "lin" THEN Lin(s, t) ELSE Try(s, t)
Over == Ended(f) /\ Ended(c)
Next == ~Over /\ f' = Step(f, Free) /\ c' = Step(c, cut) /\ UNCHANGED <<accept, move, err, flat, cut>>
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The rules, on observable runs: log entries [head, tries, res], calls,   *)
(* the verdict and the final estimate.  held(n) is the estimate of the     *)
(* full run after n iterations.                                            *)
(***************************************************************************)
PrefixOf(p, q) == Len(p) <= Len(q) /\ \A i \in DOMAIN p : p[i] = q[i]
(* The entries of the cut run, but for its last one, are those of the full run. *)
Agree(C, F, n) == n <= Len(C.log) /\ n <= Len(F.log) /\ \A i \in 1..n : C.log[i] = F.log[i]
N(C) == Len(C.log)
SameRun(C, F) == C.log = F.log /\ C.calls = F.calls /\ C.term = F.term /\ C.final = F.final

(* Settings that end the run after an iteration: its entries are those of the full run. *)
PrefixRun(C, F) == Agree(C, F, N(C)) /\ PrefixOf(C.calls, F.calls)
BudgetRule(C, F, n, held(_)) ==
  /\ PrefixRun(C, F) /\ N(C) = Min2(n, N(F)) /\ C.final = held(N(C))
  /\ (IF N(C) < N(F) THEN C.term = "MAX_ITERATIONS" ELSE C.term \in {F.term, "MAX_ITERATIONS"})
ExitRule(C, F, verdict, held(_)) == PrefixRun(C, F) /\ C.final = held(N(C)) /\ (IF C.term = verdict THEN N(C) > 0 ELSE SameRun(C, F))
StopRule(C, F, n, held(_)) == ExitRule(C, F, "USER_CALLBACK", held) /\ (C.term = "USER_CALLBACK" => N(C) = n) /\ (n < N(F) => C.term = "USER_CALLBACK")
(* Vanishing slopes end the run within an iteration, after its first candidate, and the estimate stays. *)
FlatRule(C, F, held(_)) ==
  IF C.term # "SATISFIED_FIRST_ORDER_TOL" THEN SameRun(C, F)
  ELSE /\ N(C) > 0 /\ N(C) <= N(F) /\ Agree(C, F, N(C) - 1) /\ PrefixOf(C.calls, F.calls)
       /\ C.log[N(C)].head = F.log[N(C)].head /\ C.log[N(C)].tries = SubSeq(F.log[N(C)].tries, 1, 1) /\ C.log[N(C)].res = "FIRST_ORDER_SATISFIED"
       /\ C.final = held(N(C) - 1)
(* A smaller budget of the line search: all is the same until a search needs more, which then fails with the tries it has made. *)
Needs(F, n) == {i \in DOMAIN F.log : Len(F.log[i].tries) > n \/ (Len(F.log[i].tries) = n /\ F.log[i].res = "FAILURE_INVALID_ALPHA")}   \* no further step length was found
TriesRule(C, F, n) ==
  IF Needs(F, n) = {} THEN SameRun(C, F)
  ELSE C.term \in {"assertion", "exception"} \/    \* after that search the run is another one; where it is refused no log is returned
       LET i == CHOOSE j \in Needs(F, n) : \A k \in Needs(F, n) : j <= k
       IN  /\ Agree(C, F, i - 1) /\ N(C) >= i /\ C.log[i].head = F.log[i].head
           /\ C.log[i].tries = SubSeq(F.log[i].tries, 1, n) /\ C.log[i].res = "MAX_ITERATIONS"

ResName(r) == CASE r = "ok" -> "SUCCESS" [] r = "max" -> "MAX_ITERATIONS" [] r = "flat" -> "FIRST_ORDER_SATISFIED"
View(s) == [log |-> [i \in DOMAIN s.log |-> [head |-> <<s.log[i].from, s.log[i].damp>>, tries |-> s.log[i].tries, res |-> ResName(s.log[i].res)]],
            calls |-> s.calls, term |-> s.pc, final |-> s.x]
Holds(C, F, t, held(_)) ==
  CASE t.kind = "budget" -> BudgetRule(C, F, t.v, held)
    [] t.kind = "tries" -> TriesRule(C, F, t.v)
    [] t.kind = "damping" -> ExitRule(C, F, "MAX_LAMBDA", held)
    [] t.kind = "stop" -> StopRule(C, F, t.v, held)
    [] t.kind = "abs" -> ExitRule(C, F, "SATISFIED_ABSOLUTE_TOL", held)
    [] t.kind = "rel" -> ExitRule(C, F, "SATISFIED_RELATIVE_TOL", held)
    [] t.kind = "grad" -> FlatRule(C, F, held)
Rules == Over => LET held(n) == f.ests[n + 1] IN Holds(View(c), View(f), cut, held)
=============================================================================
