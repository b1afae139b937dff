-------------------------------- MODULE QP ---------------------------------
(***************************************************************************)
(* Quadratic programs and their optimality system.                         *)
(*                                                                         *)
(*   minimise  1/2 x'Gx + c'x   s.t.  A x + b = 0,  a_i x[v_i] + b_i >= 0  *)
(*                                                                         *)
(* A problem is a record [N, M, K, G, c, A, b, ineq]; ineq is a sequence   *)
(* of records [v, a, b] (v is a 1-based index).  A primal-dual point is a  *)
(* record [x, s, y, z].                                                    *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets

IneqVal(q, x) == q.a \otimes x[q.v] \oplus q.b
IneqT(p, z) == Vec([v \in 1..p.N |-> VSum([i \in 1..p.M |-> IF p.ineq[i].v = v THEN p.ineq[i].a \otimes z[i] ELSE "0"])])

(* Residuals of the first order optimality conditions. *)
RDual(p, st) == VSub(VAdd(MVec(p.G, st.x), p.c), VAdd(MTVec(p.A, st.y, p.N), IneqT(p, st.z)))
REq(p, st)   == VAdd(MVec(p.A, st.x), p.b)
RIneq(p, st) == Vec([i \in 1..p.M |-> IneqVal(p.ineq[i], st.x) \ominus st.s[i]])
RComp(p, st, mu) == Vec([i \in 1..p.M |-> (st.s[i] \otimes st.z[i]) \ominus mu])

(* Sizes of the terms that are summed in the residuals: the unit of round-off. *)
MAbs(M) == [i \in DOMAIN M |-> VAbs(M[i])]
IneqAbs(p) == [i \in 1..p.M |-> [p.ineq[i] EXCEPT !.a = NAbs(@), !.b = NAbs(@)]]
MagDual(p, st) == VNormInf(VAdd(VAdd(MVec(MAbs(p.G), VAbs(st.x)), VAbs(p.c)),
                                VAdd(MTVec(MAbs(p.A), VAbs(st.y), p.N), IneqT([p EXCEPT !.ineq = IneqAbs(p)], VAbs(st.z)))))
MagEq(p, st)   == VNormInf(VAdd(MVec(MAbs(p.A), VAbs(st.x)), VAbs(p.b)))
MagIneq(p, st) == VNormInf([i \in 1..p.M |-> IneqVal(IneqAbs(p)[i], VAbs(st.x)) \oplus NAbs(st.s[i])])
MagComp(p, st, mu) == VNormInf([i \in 1..p.M |-> NAbs(st.s[i] \otimes st.z[i]) \oplus NAbs(mu)])

Compl(p, st) == IF p.M = 0 THEN "0" ELSE VDot(st.s, st.z) \oslash p.M

Norm2(u) == NSqrt(VDot(u, u))

Interior(st) == (\A i \in DOMAIN st.s : "0" \prec st.s[i]) /\ (\A i \in DOMAIN st.z : "0" \prec st.z[i])
FinState(st) == VFinite(st.x) /\ VFinite(st.s) /\ VFinite(st.y) /\ VFinite(st.z)
(* Numerically moderate: infeasible problems drive the multipliers to infinity; nothing is claimed beyond this range. *)
Moderate(st) == /\ FinState(st)
                /\ \A u \in {st.x, st.s, st.y, st.z} : VNormInf(u) \preceq "1e10"
                /\ \A i \in DOMAIN st.s : "1e-14" \preceq st.s[i]
SizesOK(p, st) == Len(st.x) = p.N /\ Len(st.s) = p.M /\ Len(st.y) = p.K /\ Len(st.z) = p.M

(* The interval that the bounds leave for variable v is not empty. *)
BoundsConsistent(p) ==
  \A i \in 1..p.M, j \in 1..p.M :
    LET q == p.ineq[i] r == p.ineq[j]
    IN  (q.v = r.v /\ "0" \prec q.a /\ r.a \prec "0") => (NNeg(q.b) \oslash q.a) \preceq (NNeg(r.b) \oslash r.a)

QPCost(p, x) == (VDot(x, MVec(p.G, x)) \oslash "2") \oplus VDot(p.c, x)

(***************************************************************************)
(* The Newton system of the barrier problem (equation 19.12 of the         *)
(* reference), solved exactly:                                             *)
(*    [ G   0   -A'  -Ai' ] [dx]     [ r_dual              ]               *)
(*    [ A   0    0    0   ] [ds] = - [ r_eq                ]               *)
(*    [ Ai  -I   0    0   ] [dy]     [ r_ineq              ]               *)
(*    [ 0   Z    0    S   ] [dz]     [ S z + corr - mu e   ]               *)
(***************************************************************************)
KKTMatrix(p, st) ==
  LET N == p.N M == p.M K == p.K n == N + 2 * M + K IN
  Mat([r \in 1..n |-> [c \in 1..n |->
    CASE r <= N -> (CASE c <= N -> p.G[r][c]
                      [] c > N + M /\ c <= N + M + K -> NNeg(p.A[c - N - M][r])
                      [] c > N + M + K -> LET q == p.ineq[c - N - M - K] IN IF q.v = r THEN NNeg(q.a) ELSE "0"
                      [] OTHER -> "0")
      [] r > N /\ r <= N + K -> IF c <= N THEN p.A[r - N][c] ELSE "0"
      [] r > N + K /\ r <= N + K + M -> LET i == r - N - K q == p.ineq[i] IN
             IF c = q.v THEN q.a ELSE IF c = N + i THEN "-1" ELSE "0"
      [] OTHER -> LET i == r - N - K - M IN
             IF c = N + i THEN st.z[i] ELSE IF c = N + M + K + i THEN st.s[i] ELSE "0"]])

KKTRhs(p, st, mu, corr) ==
  VScale("-1", RDual(p, st)) \o VScale("-1", REq(p, st)) \o VScale("-1", RIneq(p, st))
    \o Vec([i \in 1..p.M |-> mu \ominus ((st.s[i] \otimes st.z[i]) \oplus corr[i])])

Split(p, d) == [x |-> SubSeq(d, 1, p.N), s |-> SubSeq(d, p.N + 1, p.N + p.M),
                y |-> SubSeq(d, p.N + p.M + 1, p.N + p.M + p.K), z |-> SubSeq(d, p.N + p.M + p.K + 1, p.N + 2 * p.M + p.K)]

(* The Newton direction, or the record with empty x if the system is singular. *)
NewtonDir(p, st, mu, corr) ==
  LET d == LinSolve(KKTMatrix(p, st), KKTRhs(p, st, mu, corr))
  IN  IF Len(d) = p.N + 2 * p.M + p.K THEN Split(p, d) ELSE [x |-> <<>>, s |-> <<>>, y |-> <<>>, z |-> <<>>]

(***************************************************************************)
(* The exact minimiser of a strictly convex problem, by enumerating active *)
(* sets: the unique x that is feasible and satisfies the optimality system *)
(* for some set of active bounds with non-negative multipliers.            *)
(***************************************************************************)
ActiveSystem(p, act) ==
  LET N == p.N K == p.K m == Len(act) n == N + K + m IN
  Mat([r \in 1..n |-> [c \in 1..n |->
    CASE r <= N /\ c <= N -> p.G[r][c]
      [] r <= N /\ c > N /\ c <= N + K -> NNeg(p.A[c - N][r])
      [] r <= N /\ c > N + K -> LET q == p.ineq[act[c - N - K]] IN IF q.v = r THEN NNeg(q.a) ELSE "0"
      [] r > N /\ r <= N + K /\ c <= N -> p.A[r - N][c]
      [] r > N + K /\ c <= N -> LET q == p.ineq[act[r - N - K]] IN IF q.v = c THEN q.a ELSE "0"
      [] OTHER -> "0"]])
ActiveRhs(p, act) == VScale("-1", p.c) \o VScale("-1", p.b) \o Vec([i \in 1..Len(act) |-> NNeg(p.ineq[act[i]].b)])
SetToAscSeq(S) == LET n == Cardinality(S) IN CHOOSE f \in [1..n -> S] : \A i, j \in 1..n : i < j => f[i] < f[j]
(* Solutions: the set of optimal x (a singleton for strictly convex feasible problems, possibly represented more than once). *)
OptimalFor(p, S) ==
  LET act == SetToAscSeq(S)
      d == LinSolve(ActiveSystem(p, act), ActiveRhs(p, act))
      x == SubSeq(d, 1, p.N) lam == SubSeq(d, p.N + p.K + 1, Len(d))
  IN  IF Len(d) = 0 THEN <<>>
      ELSE IF (\A i \in 1..Len(lam) : "0" \preceq lam[i]) /\ (\A i \in 1..p.M : "0" \preceq IneqVal(p.ineq[i], x)) THEN x ELSE <<>>
HasQPStar(p) == \E S \in SUBSET (1..p.M) : Cardinality(S) <= p.N - p.K /\ OptimalFor(p, S) # <<>>
QPStar(p) == OptimalFor(p, CHOOSE S \in SUBSET (1..p.M) : Cardinality(S) <= p.N - p.K /\ OptimalFor(p, S) # <<>>)
=============================================================================
