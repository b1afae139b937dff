---------------------------- MODULE Independent ----------------------------
(***************************************************************************)
(* Several solver objects at the same time.                                *)
(*                                                                         *)
(* A job is one call on a solver object of its own: a solve or an error    *)
(* evaluation of the nonlinear solver, or a solve of one of the QP solvers.*)
(* It is a sequence of steps separated by calls to user functions; a step  *)
(* reads slots and writes slots.  Jobs run in threads; inside a call to a  *)
(* user function a thread may start another job, which runs to its end     *)
(* (with calls of its own) before the call returns.                        *)
(*                                                                         *)
(* Every slot belongs to the solver object.  Static and PerThread are the  *)
(* slots which a wrong solver keeps in one place for all objects, or for   *)
(* all objects used by a thread (none in the specified solver).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Static, PerThread
S(r, w, c) == [reads |-> r, writes |-> w, call |-> c]
SolveJob == <<S({}, {"vars", "qp", "jac"}, "lin"), S({"jac", "vars", "qp"}, {"qp", "jac"}, "lin"), S({"jac", "qp", "vars"}, {"kkt", "dx", "cand"}, "move"),
              S({"cand"}, {"cand", "err"}, "try"), S({"err", "cand"}, {"sum", "err"}, "try"), S({"err", "sum", "dx", "qp", "kkt"}, {"vars", "log"}, "tell"), S({"log", "vars"}, {"out"}, "end")>>
EvalJob  == <<S({}, {"err"}, "try"), S({"err"}, {"sum", "err"}, "try"), S({"sum", "err"}, {"out"}, "end")>>
QPJob    == <<S({}, {"kkt", "dx", "out"}, "end")>>
Steps(kind) == CASE kind = "solve" -> SolveJob [] kind = "eval" -> EvalJob [] OTHER -> QPJob
Slots == {"vars", "qp", "jac", "kkt", "dx", "cand", "err", "sum", "log", "out"}

(* Where a slot of a job lies. *)
Place(slot, job, thread) == IF slot \in Static THEN <<"static">> ELSE IF slot \in PerThread THEN <<"thread", thread>> ELSE <<"job", job>>

(* The rule on what can be observed: the calls made by a job in a mixture, in order, are those it makes alone, and so is its result. *)
Projection(order, j) == LET mine == SelectSeq(order, LAMBDA o : o.j = j) IN [i \in DOMAIN mine |-> mine[i].s]
AsAlone(order, j, alone) == Projection(order, j) = alone
=============================================================================
