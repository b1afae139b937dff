------------------------------- MODULE Observe -------------------------------
(***************************************************************************)
(* Watching a solve.                                                       *)
(*                                                                         *)
(* A solve as the sequence of its calls to user functions, with observers  *)
(* attached: the eigenvalues of each subproblem may be logged, a callback  *)
(* that always continues may be told each iteration, every call may read   *)
(* what the solver holds.  The same solve runs unwatched (a) and watched   *)
(* (b); what the user functions answer is any function of where they are   *)
(* called.  Watching may not show anywhere but in what the observers saw.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Points,          \* estimates
          MaxIter, MaxTries,
          Fault            \* "none", or a way in which watching leaks

VARIABLES accept,          \* accept[x][c]: is the candidate c from the estimate x taken
          move,            \* move[x][w]: the candidate of an estimate and a damping
          refuse,          \* the estimates at which the subproblem is indefinite
          a, b, obs
vars == <<accept, move, refuse, a, b, obs>>

Observers == {"eig", "tell", "peek"}
Start(x) == [pc |-> "lin", x |-> x, held |-> x, cand |-> x, work |-> 0, damp |-> 0, iter |-> 0, tries |-> 0, calls |-> <<>>, log |-> <<>>, told |-> <<>>, seen |-> <<>>, eigs |-> <<>>]
Init == /\ accept \in [Points -> [Points -> BOOLEAN]] /\ move \in [Points -> [0..1 -> Points]]
        /\ refuse \in SUBSET Points /\ obs \in SUBSET Observers /\ \E x \in Points : a = Start(x) /\ b = Start(x)

Entry(s, res) == [iter |-> s.iter + 1, from |-> s.x, to |-> s.cand, res |-> res, tries |-> s.tries + 1, damp |-> s.damp]
Peeked(s, O) == IF "peek" \in O THEN [s EXCEPT !.seen = Append(@, IF Fault = "peek_candidate" THEN s.cand ELSE s.held)] ELSE s
(* One step of a solve watched by O. *)
Lin(s, O) == LET t == Peeked(s, O)
                 w == IF "eig" \in O /\ Fault = "eig_in_place" THEN 1 ELSE t.damp    \* the eigenvalues are found in the matrix that is solved with
             IN  [t EXCEPT !.calls = Append(@, <<"lin", s.x>>), !.pc = IF s.x \in refuse THEN "QP_INDEFINITE" ELSE "try", !.tries = 0, !.work = w, !.cand = move[s.x][w]]
Finish(s, O, res) ==
  LET e == Entry(s, res)
      s1 == [s EXCEPT !.log = Append(@, e), !.eigs = IF "eig" \in O THEN Append(@, e.from) ELSE @, !.iter = @ + 1,
                      !.x = IF res = "ok" THEN s.cand ELSE @, !.held = IF res = "ok" THEN s.cand ELSE @, !.damp = IF res = "ok" THEN 0 ELSE 1]
      s2 == IF "tell" \in O THEN [s1 EXCEPT !.told = Append(@, [entry |-> e, held |-> s1.held, calls |-> Len(s1.calls)]),
                                            !.damp = IF Fault = "answer_resets" THEN 0 ELSE @,
                                            !.log = IF Fault = "told_is_moved" THEN [@ EXCEPT ![Len(@)] = [e EXCEPT !.tries = 0]] ELSE @] ELSE s1
  IN  [s2 EXCEPT !.pc = IF s2.iter = MaxIter \/ (res = "ok" /\ s2.x = s.x) THEN "done" ELSE "lin"]
Try(s, O) ==
  LET t == [Peeked(s, O) EXCEPT !.calls = Append(@, <<"try", s.cand>>)] IN
  IF accept[s.x][s.cand] THEN Finish(t, O, "ok")
  ELSE IF s.tries + 1 < MaxTries THEN [t EXCEPT !.tries = @ + 1, !.cand = s.x] ELSE Finish(t, O, "failed")
Step(s, O) == IF s.pc = "lin" THEN Lin(s, O) ELSE Try(s, O)

Ended(s) == s.pc \in {"done", "QP_INDEFINITE"}
Next == /\ UNCHANGED <<accept, move, refuse, obs>>
        /\ \/ ~Ended(a) /\ a' = Step(a, {}) /\ UNCHANGED b
           \/ Ended(a) /\ ~Ended(b) /\ b' = Step(b, obs) /\ UNCHANGED a
Spec == Init /\ [][Next]_vars
Over == Ended(a) /\ Ended(b)

(***************************************************************************)
(* The rules, on observable runs [calls, log, tells, eigs, term, final].   *)
(***************************************************************************)
SameCalls(p, w) == w.calls = p.calls
SameLog(p, w) == w.log = p.log
SameEnd(p, w) == w.term = p.term /\ w.final = p.final
(* Each iteration is told once, in order, with its entry in the log, after its last call and before the first of the next one. *)
ToldAll(w, watching) == IF watching THEN Len(w.tells) = Len(w.log) /\ \A i \in DOMAIN w.tells : w.tells[i].entry = w.log[i] ELSE w.tells = <<>>
ToldInTime(w) ==
  /\ \A i \in 1..(Len(w.tells) - 1) : w.tells[i].calls < w.tells[i + 1].calls
  /\ w.tells # <<>> => ((w.term # "QP_INDEFINITE" => w.tells[Len(w.tells)].calls = Len(w.calls)) /\ w.tells[Len(w.tells)].held = w.final)
EigsAsAsked(w, asked) == IF asked THEN Len(w.eigs) = Len(w.log) /\ \A i \in DOMAIN w.eigs : w.eigs[i] # "none" ELSE \A i \in DOMAIN w.eigs : w.eigs[i] = "none"

Run(s, O) == [calls |-> s.calls, log |-> s.log, tells |-> s.told, eigs |-> s.eigs, term |-> s.pc, final |-> s.held]
Rules == Over => LET p == Run(a, {}) w == Run(b, obs) IN
  /\ SameCalls(p, w) /\ SameLog(p, w) /\ SameEnd(p, w) /\ ToldAll(w, "tell" \in obs) /\ ToldInTime(w)
  /\ (IF "eig" \in obs THEN Len(w.eigs) = Len(w.log) ELSE w.eigs = <<>>)
  /\ \A i \in DOMAIN b.seen : \E j \in 0..Len(w.log) : b.seen[i] = (IF j = 0 THEN b.calls[1][2] ELSE IF w.log[j].res = "ok" THEN w.log[j].to ELSE w.log[j].from)
=============================================================================
