-------------------------------- MODULE Scopes --------------------------------
(***************************************************************************)
(* Traced scopes and exceptions.                                           *)
(*                                                                         *)
(* A thread runs a program of tokens:                                      *)
(*   open, close    a traced scope                                         *)
(*   try, end       a try block left normally                              *)
(*   throw          leaves every scope up to the innermost try block; the  *)
(*                  tokens that follow are the body of its handler         *)
(*   done           the end of a handler                                   *)
(*   guard, leave   a scope with an object whose destructor runs the       *)
(*                  tokens that follow, up to                              *)
(*   clean          when the scope is left normally ("leave") or by an     *)
(*                  exception                                              *)
(* A scope is recorded when it is closed, and not recorded when an         *)
(* exception leaves it.  This has to hold also for the scopes of           *)
(* destructors that run during unwinding, and for scopes left by an        *)
(* exception inside of those.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* A frame: [k, id, u]; k: "scope" "try" "handler" "guard" "clean0" (destructor, normal) "clean1" (destructor, unwinding);  *)
(* u: exceptions in flight when the frame was made.                                                                          *)
InFlight(stack) == Cardinality({i \in DOMAIN stack : stack[i].k = "clean1"})
Top(stack) == stack[Len(stack)].k
Pop(stack) == SubSeq(stack, 1, Len(stack) - 1)
Push(stack, kind, id) == Append(stack, [k |-> kind, id |-> id, u |-> InFlight(stack)])
(* Is there a try block to catch an exception, before the exception would leave a destructor? *)
Catchable(stack) == LET T == {i \in DOMAIN stack : stack[i].k = "try"} D == {i \in DOMAIN stack : stack[i].k \in {"clean0", "clean1"}} IN
  T # {} /\ LET t == CHOOSE i \in T : \A j \in T : j <= i IN \A d \in D : d < t

(* What recording depends on in the code: no more exceptions in flight on destruction than on construction.  While an      *)
(* exception unwinds the stack it is in flight too.                                                                         *)
Records(frame, flying) == flying <= frame.u
(* Unwinds up to a handler or the destructor of a guard; the scopes passed are recorded if the code's criterion says so.    *)
RECURSIVE Unwind(_, _)
Unwind(stack, out) ==
  LET f == stack[Len(stack)] rest == Pop(stack) IN
  CASE f.k = "try"   -> [stack |-> Push(rest, "handler", 0), out |-> out]
    [] f.k = "guard" -> [stack |-> Append(rest, [k |-> "clean1", id |-> 0, u |-> f.u]), out |-> out]
    [] f.k = "scope" -> Unwind(rest, IF Records(f, InFlight(rest) + 1) THEN Append(out, f.id) ELSE out)
    [] OTHER         -> Unwind(rest, out)

Tokens == {"open", "close", "try", "end", "throw", "done", "guard", "leave", "clean"}
May(stack, tok) ==
  CASE tok \in {"open", "try", "guard"} -> TRUE
    [] tok = "close" -> stack # <<>> /\ Top(stack) = "scope"
    [] tok = "end"   -> stack # <<>> /\ Top(stack) = "try"
    [] tok = "done"  -> stack # <<>> /\ Top(stack) = "handler"
    [] tok = "leave" -> stack # <<>> /\ Top(stack) = "guard"
    [] tok = "clean" -> stack # <<>> /\ Top(stack) \in {"clean0", "clean1"}
    [] tok = "throw" -> Catchable(stack)
(* st = [stack, out, opened]: the state after a token; scopes are numbered as they are opened *)
Apply(st, tok) ==
  LET s == st.stack IN
  CASE tok = "open"  -> [st EXCEPT !.stack = Push(s, "scope", st.opened + 1), !.opened = @ + 1]
    [] tok = "close" -> [st EXCEPT !.stack = Pop(s), !.out = IF Records(s[Len(s)], InFlight(Pop(s))) THEN Append(@, s[Len(s)].id) ELSE @]
    [] tok \in {"try", "guard"} -> [st EXCEPT !.stack = Push(s, tok, 0)]
    [] tok \in {"end", "done"} -> [st EXCEPT !.stack = Pop(s)]
    [] tok = "leave" -> [st EXCEPT !.stack = Append(Pop(s), [k |-> "clean0", id |-> 0, u |-> 0])]
    [] tok = "throw" -> LET w == Unwind(s, st.out) IN [st EXCEPT !.stack = w.stack, !.out = w.out]
    [] tok = "clean" -> IF Top(s) = "clean0" THEN [st EXCEPT !.stack = Pop(s)]
                        ELSE LET w == Unwind(Pop(s), st.out) IN [st EXCEPT !.stack = w.stack, !.out = w.out]
Start == [stack |-> <<>>, out |-> <<>>, opened |-> 0]
RECURSIVE Run(_, _)
Run(st, prog) == IF prog = <<>> THEN st ELSE Run(Apply(st, prog[1]), SubSeq(prog, 2, Len(prog)))

(* The property, from the tokens alone: the scopes that a "close" belongs to, in the order of the closes. *)
RECURSIVE Closes(_, _)
Closes(st, prog) ==
  IF prog = <<>> THEN <<>>
  ELSE (IF prog[1] = "close" THEN <<st.stack[Len(st.stack)].id>> ELSE <<>>) \o Closes(Apply(st, prog[1]), SubSeq(prog, 2, Len(prog)))
=============================================================================
