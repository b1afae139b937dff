------------------------------- MODULE Reuse -------------------------------
(***************************************************************************)
(* Re-use of solver objects: which storage a call reads and writes.        *)
(*                                                                         *)
(* A call is a sequence of steps; every step reads and writes slots of the *)
(* object's storage.  Slots are tagged with the call that wrote them last  *)
(* (0: never).  A call is memoryless when it only reads what it wrote      *)
(* itself; its result is then a function of its inputs.  A call may stop   *)
(* after any step (an exception of a user function, a failed               *)
(* factorisation, a rejected parameter).                                   *)
(*                                                                         *)
(* The same object may see calls with other problems.  Drop is the name of *)
(* a reset that is left out (none in the specified solver): the model      *)
(* checker shows that every reset is needed, and prints the histories that *)
(* distinguish the solver from the one without it.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

S(r, w) == [reads |-> r, writes |-> w]

(* Interior point solver. *)
IPSlots == {"prob", "size", "zeroH", "H", "Hinv", "x", "s", "y", "z", "r", "rdual", "delta", "affine"}
Setup == <<S({}, {"prob"}), S({"prob"}, {"size"}), S({"size"}, {"zeroH"})>>
Evaluate == S({"prob", "size", "x", "s", "y", "z"}, {"r"})
Factor   == S({"prob", "size", "s", "z", "zeroH"}, {"H", "Hinv"})
Update   == S({"r", "Hinv", "s", "z", "size"}, {"rdual", "delta"})
Advance  == S({"delta", "x", "s", "y", "z"}, {"x", "s", "y", "z"})
Guess(g) ==
  CASE g = "NAIVE" -> <<S({"size"}, {"x", "y"}), S({"prob"}, {"s", "z"})>>
    [] g = "SOLVE_EQUALITY_CONSTRAINED" ->
         <<S({"size"}, {"x", "y"}), S({"prob", "size", "x", "y"}, {"r"}), S({"prob", "size", "zeroH"}, {"H", "Hinv"}), S({"r", "Hinv"}, {"delta"}), S({"delta", "x", "y"}, {"x", "y"}), S({"prob", "x"}, {"x"}), S({"x", "prob"}, {"s", "z"})>>
    [] OTHER -> <<S({"size"}, {"x", "s", "y", "z"})>>   \* SetVariables
Iterate(strategy) ==
  IF strategy = "PREDICTOR_CORRECTOR"
  THEN <<Factor, Update, S({"delta"}, {"affine"}), S({"affine", "s", "z"}, {"r"}), Update, Advance, Evaluate>>
  ELSE <<S({"s", "z"}, {}), Factor, Update, Advance, Evaluate>>
Check == S({}, {})
IPCall(g, strategy, n) == Setup \o <<Check>> \o Guess(g) \o <<Evaluate>> \o (IF n = 1 THEN Iterate(strategy) ELSE Iterate(strategy) \o Iterate(strategy))

(* Null-space solver. *)
NSSlots == {"Q", "Gr", "rhs", "u", "y", "xn"}
NSCall == <<Check, S({}, {"Q", "rhs"}), S({"Q", "rhs"}, {"y"}), S({"Q"}, {"Gr"}), S({"Q", "Gr", "y"}, {"u"}), S({"Q", "u", "y"}, {"xn"})>>

(* Nonlinear solver.  The interior point or null-space call happens inside Direction. *)
NLSlots == {"vars", "mode", "inner", "lambda", "penalty", "log", "G", "c", "A", "b", "ineq", "dx", "cand", "tries", "ebuf"}
Begin == <<Check, S({}, {"vars"}), S({}, {"mode"}), S({}, {"inner"}), S({}, {"lambda", "penalty", "log"})>>
Linearize == <<S({}, {"G", "c"}), S({"vars", "G", "c"}, {"G", "c"}), S({"lambda", "G"}, {"G"}), S({}, {"A", "b"}), S({"vars", "A", "b"}, {"A", "b"}), S({"vars"}, {"ineq"})>>
Direction == <<S({}, {"dx"}), S({"inner", "G", "c", "A", "b", "ineq"}, {"dx"}), S({"G", "c", "A", "b", "dx", "penalty"}, {"penalty"})>>
Try == <<S({"vars", "dx"}, {"cand"}), S({"cand"}, {"ebuf"}), S({"ebuf", "tries"}, {"tries"})>>
Search(k) == <<S({}, {"tries"})>> \o (IF k = 1 THEN Try ELSE Try \o Try)
Accept == <<S({"cand", "tries", "mode"}, {"vars", "cand", "mode", "lambda"}), S({"tries", "log", "mode"}, {"log"})>>
Restore == <<S({"tries", "mode", "lambda"}, {"mode", "lambda"}), S({"tries", "log", "mode"}, {"log"})>>
NLSCall(k, ok) == Begin \o Linearize \o Direction \o Search(k) \o (IF ok THEN Accept ELSE Restore) \o Linearize \o Direction \o Search(1) \o Accept
EvalCall == <<S({}, {"ebuf"}), S({"ebuf"}, {})>>

(* The steps whose writes are resets of state that would otherwise survive from an earlier call. *)
Resets == {"prob", "size", "zeroH", "x", "s", "vars", "mode", "inner", "lambda", "G", "A", "tries"}
=============================================================================
