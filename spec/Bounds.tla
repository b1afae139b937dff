------------------------------- MODULE Bounds -------------------------------
(***************************************************************************)
(* Bound constraints a*x + b >= 0 on one variable: construction from       *)
(* Var(i) <= v and Var(i) >= v, the feasibility test, clamping and moving  *)
(* to another linearisation point.  A constraint is [v, a, b], v 0-based.  *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets

Value(c, x) == NAdd(NMul(c.a, x), c.b)
Holds(c, x) == NLe("0", Value(c, x))
LE(i, v) == [v |-> i, a |-> "-1", b |-> v]
GE(i, v) == [v |-> i, a |-> "1", b |-> NNeg(v)]
Threshold(c) == NNeg(NDiv(c.b, c.a))                 \* for a # 0
Clamp(c, x) == IF Holds(c, x) THEN x ELSE Threshold(c)
Shift(c, p) == [c EXCEPT !.b = Value(c, p)]
SameSet(c, d) == IF NEq(c.a, "0") \/ NEq(d.a, "0") THEN NEq(c.a, "0") /\ NEq(d.a, "0") /\ (NLe("0", c.b) <=> NLe("0", d.b))
                 ELSE (NLt("0", c.a) <=> NLt("0", d.a)) /\ NEq(Threshold(c), Threshold(d))

(* Round-off: the value of a*x + b is known to within a few units of the last place of its terms. *)
Ulp == "0x1p-52"
Slop(c, x) == NAdd("1e-300", NMul("4", NMul(Ulp, NAdd(NAbs(NMul(c.a, x)), NAbs(c.b)))))
(* Feasibility answers allowed for x; with a unit coefficient the sign is always computed exactly. *)
Answers(c, x) == IF NEq(NAbs(c.a), "1") \/ NEq(c.a, "0") \/ NLt(Slop(c, x), NAbs(Value(c, x))) THEN {Holds(c, x)} ELSE BOOLEAN
ClampRules(c, x, y) ==
  LET t == Threshold(c) tol == NMul("4", NMul(Ulp, NAbs(t))) IN
  [ unchanged |-> (Answers(c, x) = {TRUE}) => NEq(y, x),
    at_bound |-> (~Holds(c, x)) => Near(y, t, tol),
    satisfies |-> NLe(NNeg(Slop(c, y)), Value(c, y)) ]
(* c2 must be satisfied by d exactly when c is by p + d: same direction, and the threshold moved by p. *)
ShiftRules(c, p, c2) ==
  [ variable |-> c2.v = c.v,
    direction |-> IF NEq(c.a, "0") THEN NEq(c2.a, "0") /\ (NLe("0", c2.b) <=> NLe("0", c.b)) ELSE NLt("0", NMul(c.a, c2.a)),
    threshold |-> NEq(c.a, "0") \/ NEq(c2.a, "0") \/
                  Near(Threshold(c2), NSub(Threshold(c), p), NMul("4", NMul(Ulp, NAdd(NAbs(Threshold(c)), NAbs(p))))) ]
=============================================================================
