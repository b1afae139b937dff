-------------------------------- MODULE NLS --------------------------------
(***************************************************************************)
(* The nonlinear solver: sequential quadratic programming with a merit     *)
(* line search and Levenberg-Marquardt damping.                            *)
(*                                                                         *)
(* State of a run: the estimate x, damping lam, mode, penalty pen and      *)
(* iteration count k.  One iteration linearises at x, solves the quadratic *)
(* subproblem, updates the penalty, searches along the step, updates the   *)
(* damping and mode, and decides whether to stop.  The operators below     *)
(* state each part; where the decision rests on rounded numbers they give  *)
(* the set of acceptable outcomes (a singleton unless the compared numbers *)
(* agree to round-off; always a singleton when Eps = 0).                   *)
(*                                                                         *)
(* The same operators drive the model (NLS_MC) and judge recorded runs     *)
(* (NLS_Trace).                                                            *)
(***************************************************************************)
EXTENDS QP, TLC

CONSTANT Eps

Exact == NEq(Eps, "0")
C1 == "1e-4"                        \* sufficient decrease fraction
U(mag) == "64" \otimes Eps \otimes mag
Same4(a, b) == NearR(a, b, "8" \otimes Eps)
Imp(a, b) == a => b

Results == {"SUCCESS", "MAX_ITERATIONS", "FIRST_ORDER_SATISFIED", "POSITIVE_DERIVATIVE", "FAILURE_NON_FINITE_COST", "FAILURE_INVALID_ALPHA"}
Nominal == "NOMINAL"
Restore == "ATTEMPTING_RESTORE_LM"

(* Three-valued comparison: the set of truth values of d < 0 (or d <= 0) when d is known up to w. *)
LtSet(d, w) == (IF (d \ominus w) \prec "0" THEN {TRUE} ELSE {}) \cup (IF "0" \preceq (d \oplus w) THEN {FALSE} ELSE {})
LeSet(d, w) == (IF (d \ominus w) \preceq "0" THEN {TRUE} ELSE {}) \cup (IF "0" \prec (d \oplus w) THEN {FALSE} ELSE {})

----------------------------------------------------------------------------
(* The line search.  l: [f, q, df, dq, pen] at the start of the search; a step is [a, f, q]. *)

Merit(e, pen) == e.f \oplus (pen \otimes e.q)
MeritMag(e, pen) == NAbs(e.f) \oplus NAbs(pen \otimes e.q)
FiniteErr(e) == NIsFin(e.f) /\ NIsFin(e.q)
Slope(l) == l.df \oplus (l.pen \otimes l.dq)
SlopeMag(l) == NAbs(l.df) \oplus NAbs(l.pen \otimes l.dq)
Stationary(par, l) == NMax(NAbs(l.df), NAbs(l.dq)) \prec par.gradTol
Uphill(l) == LtSet(NNeg(Slope(l)), U(SlopeMag(l)))
(* Nothing is rounded when neither equality errors nor a slope enter. *)
NoRounding(l, s) == NEq(l.q, "0") /\ NEq(s.q, "0") /\ NEq(l.df, "0") /\ NEq(l.dq, "0")
Armijo(l, s) ==
  LET d == Merit(s, l.pen) \ominus (Merit(l, l.pen) \oplus (C1 \otimes s.a \otimes Slope(l)))
  IN  LeSet(d, IF NoRounding(l, s) THEN "0" ELSE U(MeritMag(s, l.pen) \oplus MeritMag(l, l.pen) \oplus (C1 \otimes s.a \otimes SlopeMag(l))))

(* What a candidate shows. *)
Verdicts(par, l, s) ==
  IF ~FiniteErr(s) THEN {"nonfinite"}
  ELSE IF Stationary(par, l) THEN {"first"}
  ELSE (IF TRUE \in Uphill(l) THEN {"up"} ELSE {})
       \cup (IF FALSE \in Uphill(l) THEN {IF b THEN "ok" ELSE "no" : b \in Armijo(l, s)} ELSE {})

(* The next step length: [valid |-> set of truth values of "the rule gives a smaller positive step", lo, hi |-> range of that step]. *)
Undecided == [valid |-> {TRUE, FALSE}, lo |-> "0", hi |-> "inf", sharp |-> FALSE]
Judge(lo, hi, prev) ==
  [valid |-> (IF "0" \prec hi /\ lo \prec prev THEN {TRUE} ELSE {}) \cup (IF lo \preceq "0" \/ prev \preceq hi THEN {FALSE} ELSE {}),
   lo |-> lo, hi |-> hi, sharp |-> (hi \ominus lo) \preceq ("1e-4" \otimes hi)]
QuadStep(l, s) ==
  LET g == Slope(l) gw == U(SlopeMag(l))
      num == Merit(s, l.pen) \ominus Merit(l, l.pen) \ominus (g \otimes s.a)
      w == U(MeritMag(s, l.pen) \oplus MeritMag(l, l.pen) \oplus (SlopeMag(l) \otimes s.a))
      top(h) == NNeg(h) \otimes s.a \otimes s.a
  IN  IF (num \oplus w) \preceq "0" THEN [valid |-> {FALSE}, lo |-> "0", hi |-> "0", sharp |-> TRUE]
      ELSE IF (num \ominus w) \preceq "0" THEN Undecided
      ELSE LET lo == top(g \oplus gw) \oslash ("2" \otimes (num \oplus w))
               hi == top(g \ominus gw) \oslash ("2" \otimes (num \ominus w))
           IN  Judge(lo \ominus U(NAbs(lo)), hi \oplus U(NAbs(hi)), s.a)

(* phi(t) = a t^3 + b t^2 + g t + phi(0) through the last two tries; the minimiser (-b + sqrt(b^2 - 3 a g)) / (3 a). *)
CubicCoeffs(l, s0, s1) ==
  LET g == Slope(l)
      r(s) == Merit(s, l.pen) \ominus Merit(l, l.pen) \ominus (g \otimes s.a)
      rw(s) == U(MeritMag(s, l.pen) \oplus MeritMag(l, l.pen) \oplus (SlopeMag(l) \otimes s.a))
      dif == s0.a \ominus s1.a
      u0 == r(s0) \oslash (s0.a \otimes s0.a) u1 == r(s1) \oslash (s1.a \otimes s1.a)
      w0 == rw(s0) \oslash (s0.a \otimes s0.a) w1 == rw(s1) \oslash (s1.a \otimes s1.a)
      kap == s0.a \oslash dif
      a == (u0 \ominus u1) \oslash dif
      aw == ((w0 \oplus w1) \oslash dif) \oplus (U(kap) \otimes ((NAbs(u0) \oplus NAbs(u1)) \oslash dif))
      b == ((u1 \otimes s0.a) \ominus (u0 \otimes s1.a)) \oslash dif
      bw == (((w1 \otimes s0.a) \oplus (w0 \otimes s1.a)) \oslash dif) \oplus (U(kap) \otimes (((NAbs(u1) \otimes s0.a) \oplus (NAbs(u0) \otimes s1.a)) \oslash dif))
  IN  [a |-> a, aw |-> aw, b |-> b, bw |-> bw]
CubicStep(l, s0, s1) ==
  LET k == CubicCoeffs(l, s0, s1)
      gw == U(SlopeMag(l))
      Corners == {-1, 1} \X {-1, 1} \X {-1, 1}      \* each number at either end of its range
      ca(c) == k.a \oplus (k.aw \otimes c[1]) cb(c) == k.b \oplus (k.bw \otimes c[2]) cg(c) == Slope(l) \oplus (gw \otimes c[3])
      arg(c) == (cb(c) \otimes cb(c)) \ominus ("3" \otimes ca(c) \otimes cg(c))
      argw(c) == U((cb(c) \otimes cb(c)) \oplus ("3" \otimes NAbs(ca(c) \otimes cg(c))))
      root(c) == LET q == NSqrt(NMax("0", arg(c))) IN
                   [v |-> (q \ominus cb(c)) \oslash ("3" \otimes ca(c)),
                    w |-> (U(q \oplus NAbs(cb(c))) \oplus (IF "0" \prec q THEN argw(c) \oslash q ELSE "0")) \oslash NAbs("3" \otimes ca(c))]
      R == [c \in Corners |-> LET r == root(c) IN <<r.v \ominus r.w, r.v \oplus r.w>>]
      cl == CHOOSE c \in Corners : \A d \in Corners : R[c][1] \preceq R[d][1]
      ch == CHOOSE c \in Corners : \A d \in Corners : R[d][2] \preceq R[c][2]
  IN  IF NEq(k.a, "0") /\ NEq(k.aw, "0") THEN [valid |-> {FALSE}, lo |-> "0", hi |-> "0", sharp |-> TRUE]
      ELSE IF NAbs(k.a) \preceq k.aw THEN Undecided
      ELSE IF \A c \in Corners : (arg(c) \oplus argw(c)) \prec "-1.1e-12" THEN [valid |-> {FALSE}, lo |-> "0", hi |-> "0", sharp |-> TRUE]
      ELSE IF \E c \in Corners : (arg(c) \ominus argw(c)) \prec "0" THEN Undecided
      ELSE Judge(R[cl][1], R[ch][2], s1.a)

NextStep(par, l, steps) ==
  LET m == Len(steps) s == steps[m] IN
  IF par.ls = "ARMIJO_BACKTRACK" THEN LET t == s.a \otimes par.tau IN [valid |-> {TRUE}, lo |-> t \ominus (U(t) \oslash "8"), hi |-> t \oplus (U(t) \oslash "8"), sharp |-> TRUE]
  ELSE IF m = 1 THEN QuadStep(l, s) ELSE CubicStep(l, steps[m - 1], s)

(* The classifications of a finished search that its tries allow. *)
Outcomes(par, l, steps) ==
  LET m == Len(steps) V == Verdicts(par, l, steps[m])
  IN  (IF "nonfinite" \in V THEN {"FAILURE_NON_FINITE_COST"} ELSE {})
      \cup (IF "first" \in V THEN {"FIRST_ORDER_SATISFIED"} ELSE {})
      \cup (IF "up" \in V THEN {"POSITIVE_DERIVATIVE"} ELSE {})
      \cup (IF "ok" \in V THEN {"SUCCESS"} ELSE {})
      \cup (IF "no" \in V THEN (IF m = par.maxLS + 1 THEN {"MAX_ITERATIONS"} ELSE IF FALSE \in NextStep(par, l, steps).valid THEN {"FAILURE_INVALID_ALPHA"} ELSE {}) ELSE {})

----------------------------------------------------------------------------
(* Penalty, damping and the decision to stop. *)

NextPenalty(par, pen, req) == IF pen \prec req THEN req \otimes par.penScale ELSE pen
(* The acceptable new penalties when the required value is known up to w. *)
PenaltyOK(par, pen, req, w, new) ==
  \/ TRUE \in LeSet(req \ominus pen, w) /\ NEq(new, pen)
  \/ TRUE \in LtSet(pen \ominus req, w) /\ Near(new, req \otimes par.penScale, (w \otimes par.penScale) \oplus U(NAbs(req \otimes par.penScale)))

Failing(res) == res \in {"MAX_ITERATIONS", "POSITIVE_DERIVATIVE"}
NextLambda(par, mode, lam, res) ==
  IF res = "SUCCESS" THEN NMax(lam \otimes (IF mode = Restore THEN par.decR ELSE par.decS), par.minLam)
  ELSE IF Failing(res) THEN (IF mode = Nominal THEN NMax(par.lamFail, lam \otimes "10") ELSE lam \otimes "10")
  ELSE lam
NextMode(mode, res) == IF res = "SUCCESS" THEN Nominal ELSE IF Failing(res) THEN Restore ELSE mode

(* Exits that an iteration allows; "none" is going on. *)
ExitSet(par, l, res, lam1, last) ==
  IF res = "SUCCESS" THEN
    IF NMax(last.f, last.q) \prec par.absTol THEN {"SATISFIED_ABSOLUTE_TOL"}
    ELSE LET d == (Merit(l, l.pen) \otimes ("1" \ominus par.relTol)) \ominus Merit(last, l.pen)
             tie == NEq(d, "0") /\ NEq(l.q, "0") /\ NEq(last.q, "0") /\ \E r \in {"0", "0.5", "0.75"} : NEq(par.relTol, r)     \* computed without rounding
         IN  {IF b THEN "SATISFIED_RELATIVE_TOL" ELSE "none" : b \in LtSet(d, IF tie THEN "0" ELSE U(MeritMag(l, l.pen) \oplus MeritMag(last, l.pen)))}
  ELSE IF res = "FIRST_ORDER_SATISFIED" THEN {"SATISFIED_FIRST_ORDER_TOL"}
  ELSE IF Failing(res) THEN {IF b THEN "MAX_LAMBDA" ELSE "none" : b \in LtSet(par.maxLam \ominus lam1, IF NEq(lam1, par.lamFail) THEN "0" ELSE U(lam1) \oslash "8")}
  ELSE {"none"}
Terms == {"SATISFIED_ABSOLUTE_TOL", "SATISFIED_RELATIVE_TOL", "SATISFIED_FIRST_ORDER_TOL", "MAX_LAMBDA", "MAX_ITERATIONS", "QP_INDEFINITE", "USER_CALLBACK"}

----------------------------------------------------------------------------
(* The linearised subproblem.  A call is [id, p, e, J]; prob: [n, costs, eqs, ineq, retr]. *)

Ids(list) == {list[i].id : i \in DOMAIN list}
Complete(prob, calls) == Ids(calls) = Ids(prob.costs) \cup Ids(prob.eqs)
CallOf(calls, id) == calls[CHOOSE i \in DOMAIN calls : calls[i].id = id]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
StackE(list, calls) == Vec(Concat([i \in DOMAIN list |-> CallOf(calls, list[i].id).e]))
FullRows(prob, r, J) == [q \in DOMAIN J |-> [v \in 1..prob.n |-> IF \E k \in DOMAIN r.idx : r.idx[k] = v THEN J[q][CHOOSE k \in DOMAIN r.idx : r.idx[k] = v] ELSE "0"]]
StackJ(prob, list, calls) == Mat(Concat([i \in DOMAIN list |-> FullRows(prob, list[i], CallOf(calls, list[i].id).J)]))
Transp(M, n) == Mat([j \in 1..n |-> [i \in DOMAIN M |-> M[i][j]]])

CostOf(prob, calls) == VNorm2Sq(StackE(prob.costs, calls)) \oslash "2"
EqErrOf(prob, calls) == VNorm1(StackE(prob.eqs, calls))
FiniteCalls(calls) == \A i \in DOMAIN calls : VFinite(calls[i].e)
FiniteLin(calls) == FiniteCalls(calls) /\ \A i \in DOMAIN calls : \A r \in DOMAIN calls[i].J : VFinite(calls[i].J[r])
ErrsOK(prob, calls, f, q) ==
  IF ~FiniteCalls(calls) THEN ~(NIsFin(f) /\ NIsFin(q))
  ELSE LET cf == CostOf(prob, calls) cq == EqErrOf(prob, calls) IN
       IF "1e300" \prec NMax(cf, cq) THEN TRUE ELSE NIsFin(f) /\ NIsFin(q) /\ Near(f, cf, U(cf)) /\ Near(q, cq, U(cq))
PointsOK(prob, calls, x) ==
  \A i \in DOMAIN calls : LET r == CallOf(prob.costs \o prob.eqs, calls[i].id) IN
     Len(calls[i].p) = Len(r.idx) /\ \A k \in DOMAIN r.idx : SameNum(calls[i].p[k], x[r.idx[k]])

(* Quadratic program of one iteration. *)
SubQP(prob, x, calls, lam) ==
  LET J == StackJ(prob, prob.costs, calls) JT == Transp(J, prob.n) e == StackE(prob.costs, calls)
      A == StackJ(prob, prob.eqs, calls) b == StackE(prob.eqs, calls)
  IN  [N |-> prob.n, M |-> Len(prob.ineq), K |-> Len(b),
       G |-> Mat([r \in 1..prob.n |-> [c \in 1..prob.n |-> IF r = c THEN VDot(JT[r], JT[c]) \oplus lam ELSE VDot(JT[r], JT[c])]]),
       c |-> Vec([r \in 1..prob.n |-> VDot(JT[r], e)]),
       cabs |-> Vec([r \in 1..prob.n |-> VDot(VAbs(JT[r]), VAbs(e))]),
       A |-> A, b |-> b,
       ineq |-> [i \in 1..Len(prob.ineq) |-> [v |-> prob.ineq[i].v, a |-> prob.ineq[i].a, b |-> IneqVal(prob.ineq[i], x)]]]
NSign(a) == IF a \prec "0" THEN "-1" ELSE IF "0" \prec a THEN "1" ELSE "0"
SlopeF(p, dx) == VDot(p.c, dx)
SlopeQ(p, dx) == LET ad == MVec(p.A, dx) IN VSum([i \in 1..p.K |-> NSign(p.b[i]) \otimes ad[i]])
(* Required penalty without multipliers (equation 18.36), and the size of its terms. *)
PredChange(p, dx) == VDot(p.c, dx) \oplus (NMax("0", VDot(dx, MVec(p.G, dx))) \oslash "2")
ReqQuad(par, p, dx) == PredChange(p, dx) \oslash (("1" \ominus par.rho) \otimes NMax(VNorm1(p.b), "0x1p-52"))

(* The step solves the equality constrained program (no bounds): feasible and stationary along the constraints. *)
KKTEq(p) == Mat([r \in 1..(p.N + p.K) |-> [c \in 1..(p.N + p.K) |->
     IF r <= p.N /\ c <= p.N THEN p.G[r][c] ELSE IF r <= p.N THEN p.A[c - p.N][r] ELSE IF c <= p.N THEN p.A[r - p.N][c] ELSE "0"]])
=============================================================================
