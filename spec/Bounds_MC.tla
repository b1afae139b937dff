------------------------------ MODULE Bounds_MC -----------------------------
(* All short histories of one constraint object over a finite set of numbers. *)
EXTENDS Bounds, TLC, Json

CONSTANTS Dump, Depth, As, Bs, Ps
Xs == {"-3", "-2", "-1", "-1/2", "0", "1/2", "2/3", "1", "3/2", "2", "3"}
Norm(c) == [v |-> c.v, a |-> NStr(c.a), b |-> NStr(c.b)]
Made == {[op |-> "le", v |-> i, p |-> w] : i \in {0, 2}, w \in Bs} \cup {[op |-> "ge", v |-> i, p |-> w] : i \in {0, 2}, w \in Bs}
        \cup {[op |-> "con", v |-> 1, a |-> a, p |-> b] : a \in As, b \in Bs}
New(m) == Norm(CASE m.op = "le" -> LE(m.v, m.p) [] m.op = "ge" -> GE(m.v, m.p) [] m.op = "con" -> [v |-> m.v, a |-> m.a, b |-> m.p])

VARIABLES c, hist, moved
vars == <<c, hist, moved>>
Init == \E m \in Made : c = New(m) /\ hist = <<m>> /\ moved = "0"
Move == /\ Len(hist) <= Depth
        /\ \E p \in Ps, vec \in BOOLEAN : c' = Norm(Shift(c, p)) /\ hist' = Append(hist, [op |-> IF vec THEN "shiftv" ELSE "shift", p |-> p]) /\ moved' = NStr(NAdd(moved, p))
Next == Move
Spec == Init /\ [][Next]_vars
Printed == Dump => PrintT("VERIF-BND " \o ToJson(hist))
----------------------------------------------------------------------------
First == New(hist[1])
Sides == LET m == hist[1] IN \A x \in Xs : (m.op = "le" => (Holds(First, x) <=> NLe(x, m.p))) /\ (m.op = "ge" => (Holds(First, x) <=> NLe(m.p, x)))
Translated == \A d \in Xs : Holds(c, d) <=> Holds(First, NAdd(moved, d))
Composes == SameSet(c, Shift(First, moved))
ClampIsProjection == ~NEq(c.a, "0") => \A x \in Xs : LET y == Clamp(c, x) IN
   /\ Holds(c, y) /\ NEq(Clamp(c, y), y)
   /\ \A w \in Xs : Holds(c, w) => NLe(NAbs(NSub(x, y)), NAbs(NSub(x, w)))
   /\ \A r \in DOMAIN ClampRules(c, x, y) : ClampRules(c, x, y)[r]
RulesHold == \A p \in Ps : LET R == ShiftRules(c, p, Shift(c, p)) IN \A r \in DOMAIN R : R[r]
=============================================================================
