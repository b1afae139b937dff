---------------------------- MODULE NullSpace_MC ---------------------------
(***************************************************************************)
(* All problems of a finite family, solved one after another on one solver *)
(* object by the null-space method with every basis and particular         *)
(* solution of a finite set.  Checked: the verdict means strict convexity  *)
(* along feasible directions, the solution is the minimiser and does not   *)
(* depend on the choices, redundant constraints change nothing.            *)
(* With Dump the problems are printed and solved by the real solver.       *)
(***************************************************************************)
EXTENDS NullSpace, TLC, Json

CONSTANTS Dump, GVals, RowSet, MaxRows, Dim

Rows == IF Dim = 1 THEN {<<0>>, <<1>>, <<2>>}
        ELSE IF Dim = 2 THEN {<<0,0>>, <<1,0>>, <<0,1>>, <<1,1>>, <<1,-1>>, <<2,1>>}
        ELSE IF RowSet = "axis" THEN {<<0,0,0>>, <<1,0,0>>, <<0,1,0>>, <<0,0,1>>} ELSE {<<1,1,0>>, <<0,1,-1>>, <<1,1,1>>, <<2,0,1>>}
S(v) == [i \in DOMAIN v |-> ToString(v[i])]
Low(g) == IF Dim = 1 THEN << <<g[1]>> >> ELSE IF Dim = 2 THEN << <<g[1], "7">>, <<g[2], g[3]>> >>
          ELSE << <<g[1], "7", "7">>, <<g[2], g[3], "7">>, <<g[4], g[5], g[6]>> >>      \* the upper triangle is not significant
Pt == IF Dim = 1 THEN {<<2>>} ELSE IF Dim = 2 THEN {<<2,-1>>} ELSE {<<2,-1,1>>}
Cs == IF Dim = 1 THEN <<"-3">> ELSE IF Dim = 2 THEN <<"1", "-2">> ELSE <<"1", "-2", "1">>
Problem(g, A, x0) == LET AA == [i \in DOMAIN A |-> S(A[i])] IN
   [n |-> Dim, G |-> Low(g), c |-> Cs, A |-> AA, b |-> VStr(VScale("-1", MVec(AA, S(x0))))]

VARIABLES prob, sol, verdict, phase
vars == <<prob, sol, verdict, phase>>
Init == prob = [n |-> 0] /\ sol = <<>> /\ verdict = "none" /\ phase = "idle"

Pose ==
  /\ phase = "idle"
  /\ \E g \in [1..(IF Dim = 1 THEN 1 ELSE IF Dim = 2 THEN 3 ELSE 6) -> GVals], k \in 1..MaxRows : \E A \in [1..k -> Rows], x0 \in Pt :
       /\ prob' = Problem(g, A, x0)
       /\ (Dump => PrintT("VERIF-QP " \o ToJson(prob')))
  /\ phase' = "posed" /\ UNCHANGED <<sol, verdict>>

Basis(p) == LET Z == Directions(p) IN [i \in DOMAIN Z |-> VStr(Z[i])]
(* Alternative bases and particular solutions. *)
Mixes(Z) == IF Len(Z) = 2 THEN {Z, <<VStr(VAdd(Z[1], Z[2])), Z[2]>>} ELSE IF Len(Z) = 1 THEN {Z, <<VStr(VScale("-3", Z[1]))>>} ELSE {Z}
Particulars(p, Z) == LET u == Particular(p.A, VScale("-1", p.b), p.n) IN {VStr(u)} \cup (IF Len(Z) > 0 THEN {VStr(VAdd(u, Z[1]))} ELSE {})

Solve ==
  /\ phase = "posed"
  /\ IF Definite(prob)
     THEN \E Z \in Mixes(Basis(prob)), u \in Particulars(prob, Basis(prob)) :
            verdict' = "SUCCESS" /\ sol' = VStr(MethodSolution(prob, Z, u))
     ELSE verdict' = "NOT_POSITIVE_DEFINITE" /\ sol' = sol
  /\ phase' = "done" /\ UNCHANGED prob

Next == Pose \/ Solve
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Done == phase = "done"
Grid == {"-2", "-1", "0", "1", "2"}
FeasibleDirs(p) == {d \in [1..p.n -> Grid] : VNormInf(MVec(p.A, d)) \preceq "0" /\ ~(VNormInf(d) \preceq "0")}
Curv(p, d) == VDot(d, MVec(SymLow(p.G), d))
Cost(p, x) == (VDot(x, MVec(SymLow(p.G), x)) \oslash "2") \oplus VDot(p.c, x)
SuccessMeansConvex == (Done /\ verdict = "SUCCESS") => \A d \in FeasibleDirs(prob) : "0" \prec Curv(prob, d)
(* For up to two dimensions of directions the grid, extended by the exact worst direction, is conclusive. *)
FailureMeansNot == (Done /\ verdict # "SUCCESS") => LET R == Reduced(Directions(prob), SymLow(prob.G)) IN Inertia(R)[3] < Len(R)
SolutionIsMinimiser == (Done /\ verdict = "SUCCESS") => /\ Solves(prob, sol)
                                                        /\ \A d \in FeasibleDirs(prob) : Cost(prob, sol) \prec Cost(prob, VAdd(sol, d))
RulesHold == (Done /\ verdict = "SUCCESS") => \A r \in DOMAIN SolutionRules(prob, sol) : SolutionRules(prob, sol)[r]
VerdictAllowed == Done => verdict \in Verdicts(prob)
(* One distinct solution per problem, and repeating a constraint leaves it unchanged. *)
Redundant == (Done /\ verdict = "SUCCESS") =>
  LET q == [prob EXCEPT !.A = Append(@, VStr(VScale("2", prob.A[1]))), !.b = Append(@, NStr("2" \otimes prob.b[1]))] IN Definite(q) /\ Solves(q, sol)
Unique == (Done /\ verdict = "SUCCESS") => VEq(sol, MethodSolution(prob, Directions(prob), Particular(prob.A, VScale("-1", prob.b), prob.n)))
=============================================================================
