----------------------------- MODULE NullSpace -----------------------------
(***************************************************************************)
(* The null-space solver for  minimise 1/2 x'Gx + c'x  s.t.  A x + b = 0.  *)
(*                                                                         *)
(* A problem is a record [n, G, c, A, b]; of G only the lower triangle is  *)
(* read.  The solver object has one piece of state, the solution it        *)
(* exposes.  Solve(p) either ends with "NOT_POSITIVE_DEFINITE", or with    *)
(* "SUCCESS" and then exposes the constrained minimiser.                   *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets

Identity(n) == [i \in 1..n |-> Unit(n, i)]
Directions(p) == NullBasis(p.A, p.n)                 \* rows: a basis of the feasible directions
Reduced(Z, G) == Mat(Congruence(Z, G))
MCombine(M, k, P) == Mat([i \in DOMAIN M |-> VAdd(M[i], VScale(k, P[i]))])

(* Strict convexity on the null space, exactly; and with a relative margin on either side. *)
Definite(p) == PosDef(Reduced(Directions(p), SymLow(p.G)))
Scale(p) == MNormInf(SymLow(p.G))
Gram(p, Z) == Reduced(Z, Identity(p.n))
ClearlyDefinite(p) == LET Z == Directions(p) IN PosDef(MCombine(Reduced(Z, SymLow(p.G)), "-1e-9" \otimes Scale(p), Gram(p, Z)))
(* Not definite even after a small shift; a zero cost matrix is not definite either (nothing is rounded then). *)
ClearlyNot(p) == LET Z == Directions(p) IN
  IF Scale(p) \preceq "0" THEN Len(Z) > 0
  ELSE ~PosDef(MCombine(Reduced(Z, SymLow(p.G)), "1e-9" \otimes Scale(p), Gram(p, Z)))
Verdicts(p) == IF ClearlyDefinite(p) THEN {"SUCCESS"} ELSE IF ClearlyNot(p) THEN {"NOT_POSITIVE_DEFINITE"} ELSE {"SUCCESS", "NOT_POSITIVE_DEFINITE"}

(* The defining equations of the solution. *)
EqResidual(p, x) == VAdd(MVec(p.A, x), p.b)
Gradient(p, x) == VAdd(MVec(SymLow(p.G), x), p.c)
Stationary(p, x) == LET g == Gradient(p, x) Z == Directions(p) IN \A i \in DOMAIN Z : NEq(VDot(Z[i], g), "0")
Solves(p, x) == VNormInf(EqResidual(p, x)) \preceq "0" /\ Stationary(p, x)

(* ... and up to round-off. *)
Eps == "1e-9"
EqTol(p, x) == Eps \otimes (((MNormInf(p.A) \otimes VNormInf(x)) \oplus VNormInf(p.b)) \otimes p.n)
GradTol(p, x, z) == Eps \otimes (VNorm1(z) \otimes ((Scale(p) \otimes VNormInf(x)) \oplus VNormInf(p.c)))
SolutionRules(p, x) ==
  LET g == Gradient(p, x) Z == Directions(p) IN
  [ shape |-> Len(x) = p.n,
    finite |-> Len(x) # p.n \/ VFinite(x),
    constraints |-> Len(x) # p.n \/ ~VFinite(x) \/ VNormInf(EqResidual(p, x)) \preceq EqTol(p, x),
    stationary |-> Len(x) # p.n \/ ~VFinite(x) \/ \A i \in DOMAIN Z : NAbs(VDot(Z[i], g)) \preceq GradTol(p, x, Z[i]) ]

(* The method: any basis Z of the null space and any particular solution u give the minimiser u + Z'y. *)
MethodSolution(p, Z, u) ==
  LET y == LinSolve(Reduced(Z, SymLow(p.G)), Vec([i \in DOMAIN Z |-> NNeg(VDot(Z[i], Gradient(p, u)))]))
  IN  VAdd(u, MTVec(Z, y, p.n))
=============================================================================
