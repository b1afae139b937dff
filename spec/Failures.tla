------------------------------ MODULE Failures ------------------------------
(***************************************************************************)
(* Failing user functions.                                                 *)
(*                                                                         *)
(* One solve as the sequence of calls it makes to functions of the user:   *)
(* every residual with its Jacobian (linearise), the retraction (if any),  *)
(* every residual without it (try), the exit callback (if any).  Each call *)
(* may fail.  held is the version of the estimate the solver holds, cand   *)
(* the version of the candidate.                                           *)
(*                                                                         *)
(* The numerics are abstracted: whether a try is accepted, retried or      *)
(* given up is chosen freely, as is the end of the run.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Costs, Equalities,        \* sets of residuals
          Retraction, Callback,     \* are there any
          MaxIter, MaxTries,
          Fault                     \* "none", or the name of a wrong way to handle a failure

Residuals == Costs \cup Equalities
VARIABLES phase, todo, held, cand, fresh, iter, tries, calls, out
vars == <<phase, todo, held, cand, fresh, iter, tries, calls, out>>

Running == [k |-> "running"]
Raised(n) == [k |-> "raised", call |-> n]
Verdict(t) == [k |-> "verdict", term |-> t]

Init == /\ phase = "lin" /\ todo = Residuals /\ held = 0 /\ cand = 0 /\ fresh = 1 /\ iter = 1 /\ tries = 0 /\ calls = <<>> /\ out = Running

CallIs(kind, r, ok) == calls' = Append(calls, [kind |-> kind, r |-> r, held |-> held, ok |-> ok])
Call(kind, r) == CallIs(kind, r, TRUE)

(* The call fails: the failure reaches the caller of the solve, which is over. *)
Fail(kind, r) ==
  /\ CallIs(kind, r, FALSE)
  /\ IF Fault = "swallow" /\ kind = "try" THEN phase' = "lin" /\ todo' = Residuals /\ UNCHANGED <<held, cand, fresh, iter, tries, out>>
     ELSE IF Fault = "verdict" /\ kind = "tell" THEN phase' = "done" /\ out' = Verdict("USER_CALLBACK") /\ UNCHANGED <<todo, held, cand, fresh, iter, tries>>
     ELSE /\ phase' = "done" /\ out' = Raised(Len(calls) + 1)
          /\ held' = IF Fault = "restore" THEN 0 ELSE IF Fault = "candidate" THEN cand ELSE held
          /\ UNCHANGED <<todo, cand, fresh, iter, tries>>

Then(p) == phase' = p /\ todo' = (IF p \in {"lin", "try"} THEN Residuals ELSE {})
AfterLin == IF Retraction THEN "move" ELSE "try"
Lin(r) == /\ phase = "lin" /\ r \in todo
          /\ \/ Fail("lin", r)
             \/ /\ Call("lin", r)
                /\ IF todo = {r} THEN Then(AfterLin) /\ tries' = 0 /\ (IF Retraction THEN UNCHANGED <<cand, fresh>> ELSE cand' = fresh /\ fresh' = fresh + 1)
                   ELSE phase' = phase /\ todo' = todo \ {r} /\ UNCHANGED <<tries, cand, fresh>>
                /\ UNCHANGED <<held, iter, out>>
Move == /\ phase = "move"
        /\ \/ Fail("move", 0)
           \/ Call("move", 0) /\ Then("try") /\ cand' = fresh /\ fresh' = fresh + 1 /\ UNCHANGED <<held, iter, tries, out>>

(* What follows a finished iteration. *)
NextIter == IF iter = MaxIter THEN phase' = "done" /\ out' = Verdict("MAX_ITERATIONS") /\ UNCHANGED <<todo, iter>>
            ELSE \/ Then("lin") /\ iter' = iter + 1 /\ UNCHANGED out
                 \/ phase' = "done" /\ out' = Verdict("EXIT") /\ UNCHANGED <<todo, iter>>
Finish == IF Callback THEN Then("tell") /\ UNCHANGED <<iter, out>> ELSE NextIter
Try(r) == /\ phase = "try" /\ r \in todo
          /\ \/ Fail("try", r)
             \/ /\ Call("try", r)
                /\ IF todo # {r} THEN todo' = todo \ {r} /\ UNCHANGED <<phase, held, cand, fresh, iter, tries, out>>
                   ELSE \/ held' = cand /\ Finish /\ UNCHANGED <<cand, fresh, tries>>                       \* accepted
                        \/ UNCHANGED held /\ Finish /\ UNCHANGED <<cand, fresh, tries>>                     \* given up
                        \/ /\ tries < MaxTries /\ tries' = tries + 1 /\ Then(AfterLin)                      \* a shorter step
                           /\ (IF Retraction THEN UNCHANGED <<cand, fresh>> ELSE cand' = fresh /\ fresh' = fresh + 1)
                           /\ UNCHANGED <<held, iter, out>>
Tell == /\ phase = "tell"
        /\ \/ Fail("tell", 0)
           \/ Call("tell", 0) /\ NextIter /\ UNCHANGED <<held, cand, fresh, tries>>
           \/ Call("tell", 0) /\ phase' = "done" /\ out' = Verdict("USER_CALLBACK") /\ UNCHANGED <<todo, held, cand, fresh, iter, tries>>

Next == (\E r \in Residuals : Lin(r) \/ Try(r)) \/ Move \/ Tell
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The rules, on what can be observed of a run: out, the calls made (with  *)
(* the estimate held at each), the estimate held afterwards.               *)
(***************************************************************************)
(* A failed call is the last one, and the estimate is the one held at it. *)
Surfaces(failedAt, ncalls) == ncalls = failedAt
Intact(heldAt, final) == final = heldAt
(* Calls of a solve: whole linearisations, then tries (each after its retraction), then the callback. *)
Count(ks, k) == Cardinality({i \in DOMAIN ks : ks[i] = k})
Grouped(ks, nres, retr, cb) ==
  /\ Count(ks, "lin") % nres = 0 /\ Count(ks, "try") % nres = 0
  /\ retr => Count(ks, "move") * nres = Count(ks, "try")
  /\ ~cb => Count(ks, "tell") = 0
(* The estimate changes only where an iteration ended: before the callback, or before the next linearisation. *)
ChangesLegally(ks, hs) == \A i \in 2..Len(ks) : hs[i] # hs[i - 1] => (ks[i] \in {"tell", "lin"} /\ ks[i - 1] \in {"try"})
=============================================================================
