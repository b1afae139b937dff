----------------------------- MODULE NLS_Trace ------------------------------
(* Recorded runs of ConstrainedNonlinearLeastSquares against NLS. *)
EXTENDS NLS, TraceBase

VARIABLES prob, par, x, lam, mode, pen, exits, ans, k, feas, bad, indef
vars == <<l, viol, hits, prob, par, x, lam, mode, pen, exits, ans, k, feas, bad, indef>>
(* exits: what the last logged iteration allows to happen next; ans: the callback's last answer; bad: the run cannot be followed
   any further; indef: a linearisation without log entry was seen, and whether its reduced Hessian could be indefinite. *)

Init == BaseInit /\ prob = [n |-> 0] /\ par = [tag |-> "none"] /\ x = <<>> /\ lam = "0" /\ mode = Nominal /\ pen = "0" /\ exits = {"none"} /\ ans = TRUE
        /\ k = 0 /\ feas = FALSE /\ bad = FALSE /\ indef = {}

Min(a, b) == IF a <= b THEN a ELSE b
NMaxI(a, b) == IF a >= b THEN a ELSE b
BoundVal(q, v) == IneqVal(q, v)
BoundMag(q, v) == NAbs(q.a \otimes v[q.v]) \oplus NAbs(q.b)
Feasible(pr, v) == \A i \in DOMAIN pr.ineq : "0" \preceq BoundVal(pr.ineq[i], v)
Consistent1(pr) == BoundsConsistent([M |-> Len(pr.ineq), ineq |-> pr.ineq])
Additive(pr) == pr.retr \in {"none", "add"}

Start ==
  /\ ev.e = "start"
  /\ prob' = [n |-> ev.n, costs |-> ev.costs, eqs |-> ev.eqs, ineq |-> ev.ineq, retr |-> ev.retr, cbset |-> ev.cbset, x0 |-> ev.x0,
              K |-> LET S[i \in 0..Len(ev.eqs)] == IF i = 0 THEN 0 ELSE S[i-1] + ev.eqs[i].R IN S[Len(ev.eqs)],
              nullspace |-> ev.eqs # <<>> /\ ev.ineq = <<>>]
  /\ par' = ev.par @@ [tag |-> ev.tag, expect |-> ev.expect]
  /\ x' = ev.x0 /\ lam' = ev.par.lam0 /\ mode' = Nominal /\ pen' = ev.par.pen0 /\ exits' = {"none"} /\ ans' = TRUE /\ k' = 0
  /\ feas' = Feasible([ineq |-> ev.ineq], ev.x0) /\ bad' = FALSE /\ indef' = {}
  /\ Consume({}, {"scenario", "scn_" \o ev.tag})

----------------------------------------------------------------------------
Rec == ev.rec[1]
LS == [f |-> Rec.f, q |-> Rec.q, df |-> Rec.df, dq |-> Rec.dq, pen |-> Rec.pen]
Steps == Rec.steps
NSteps == Len(Steps)
LastStep == Steps[NSteps]
NewX == IF Rec.res = "SUCCESS" THEN ev.tries[Len(ev.tries)].x ELSE x

(* The step: exact from a recording retraction, otherwise reconstructed from the first candidate (full step). *)
Dx == IF prob.retr # "none" THEN ev.retr[1].dx ELSE VSub(ev.tries[1].x, x)
DxErr == IF prob.retr # "none" THEN Zeros(prob.n) ELSE Vec([i \in 1..prob.n |-> "2" \otimes Eps \otimes NAbs(ev.tries[1].x[i])])

(* A record that later rules can be applied to. *)
Shape == /\ Len(ev.x) = prob.n /\ Len(ev.rec) = 1 /\ NSteps >= 1 /\ Len(ev.tries) >= 1 /\ Rec.res \in Results
         /\ Complete(prob, ev.lin) /\ \A j \in DOMAIN ev.tries : Complete(prob, ev.tries[j].c)
         /\ (prob.retr # "none" => Len(ev.retr) >= 1)
Numeric == FiniteLin(ev.lin) /\ VFinite(Dx) /\ NIsFin(Rec.f) /\ NIsFin(Rec.q) /\ NIsFin(Rec.df) /\ NIsFin(Rec.dq) /\ NIsFin(Rec.pen) /\ NIsFin(Rec.lam)
           /\ VNormInf(Dx) \preceq "1e12" /\ Rec.pen \preceq "1e40" /\ NMax(NMax(NAbs(Rec.f), Rec.q), NAbs(Rec.df)) \preceq "1e100"

TriesAgree == Len(ev.tries) = NSteps

C07Rules ==
  [ at_estimate |-> VEq(ev.x, x) /\ PointsOK(prob, ev.lin, x),
    candidates |-> \A j \in DOMAIN ev.tries : PointsOK(prob, ev.tries[j].c, ev.tries[j].x),
    retracted |-> IF prob.retr = "none"
                  THEN \A j \in 1..Min(NSteps, Len(ev.tries)) : \A i \in 1..prob.n :
                         Near(ev.tries[j].x[i], x[i] \oplus (Steps[j].a \otimes Dx[i]), "8" \otimes Eps \otimes (NAbs(x[i]) \oplus NAbs(Dx[i])))
                  ELSE /\ Len(ev.retr) = Len(ev.tries)
                       /\ \A j \in 1..Min(Len(ev.retr), Len(ev.tries)) :
                            /\ VEq(ev.retr[j].xin, x) /\ VEq(ev.retr[j].dx, Dx) /\ (j <= NSteps => SameNum(ev.retr[j].a, Steps[j].a))
                            /\ VEq(ev.retr[j].xout, ev.tries[j].x),
    held |-> ev.cb => VEq(ev.vars, NewX),
    decrease |-> Rec.res = "SUCCESS" =>
        LET c == ev.tries[Len(ev.tries)].c f == CostOf(prob, c) q == EqErrOf(prob, c) f0 == CostOf(prob, ev.lin) q0 == EqErrOf(prob, ev.lin)
        IN  FiniteCalls(c) /\ TRUE \in Armijo([LS EXCEPT !.f = f0, !.q = q0], [a |-> LastStep.a, f |-> f, q |-> q]) /\ FALSE \in Uphill(LS) ]

C08Rules == [ went_on |-> k = 0 \/ ("none" \in exits /\ ans), bounded |-> ev.k = k + 1 /\ ev.k <= par.maxIter, numbered |-> Rec.i = k,
              callback |-> ev.cb = prob.cbset, same_record |-> ev.cbsame ]
C09Rules == [ lambda |-> Same4(Rec.lam, lam), mode |-> Rec.mode = NextMode(mode, Rec.res), capped |-> Rec.lam \preceq (par.maxLam \otimes ("1" \oplus U("1"))),
              floor |-> par.minLam \preceq Rec.lam ]
C10Rules ==
  [ count |-> NSteps <= par.maxLS + 1,
    tries |-> TriesAgree,
    logged |-> \A j \in 1..Min(NSteps, Len(ev.tries)) : ErrsOK(prob, ev.tries[j].c, Steps[j].f, Steps[j].q),
    full |-> NEq(Steps[1].a, "1"),
    smaller |-> \A j \in 1..(NSteps - 1) : Steps[j + 1].a \prec Steps[j].a /\ "0" \prec Steps[j + 1].a,
    rule |-> \A j \in 1..(NSteps - 1) : LET r == NextStep(par, LS, SubSeq(Steps, 1, j)) IN TRUE \in r.valid /\ r.lo \preceq Steps[j + 1].a /\ Steps[j + 1].a \preceq r.hi,
    went_on |-> \A j \in 1..(NSteps - 1) : "no" \in Verdicts(par, LS, Steps[j]),
    outcome |-> Rec.res \in Outcomes(par, LS, Steps) ]
PenReq(p) == IF Rec.qp.lag # <<>> THEN [v |-> Rec.qp.lag[2], w |-> "0"]
             ELSE LET e == DxErr ad == MVec(MAbs(p.G), VAbs(Dx))
                      mag == VDot(p.cabs, VAbs(Dx)) \oplus VDot(VAbs(Dx), ad)
                      err == U(mag) \oplus VDot(VAdd(VAbs(p.c), VScale("2", ad)), e)
                  IN  [v |-> ReqQuad(par, p, Dx),
                       w |-> (err \oslash (("1" \ominus par.rho) \otimes NMax(VNorm1(p.b), "0x1p-52"))) \oplus U(NAbs(ReqQuad(par, p, Dx)))]
C11Rules(p) ==
  [ monotone |-> pen \preceq Rec.pen,
    no_eq |-> Imp(p.K = 0, NEq(Rec.pen, pen)),
    lag |-> Imp(p.K > 0, (Rec.qp.kind = "ip") = (Rec.qp.lag # <<>>)),
    raised |-> Imp(p.K > 0, LET r == PenReq(p) IN PenaltyOK(par, pen, r.v, r.w, Rec.pen)) ]
(* Bound on the multipliers of the bounds, used to size the accuracy of a converged step. *)
StepGap(p, dx, xs) ==
  LET y == IF Rec.qp.lag = <<>> THEN "0" ELSE Rec.qp.lag[2] \otimes p.K
      g == VNorm1(VAdd(MVec(MAbs(p.G), VAbs(dx)), VAbs(p.c))) \oplus (y \otimes NMax("1", MNormInf(p.A)))
      amin == IF p.M = 0 THEN "1" ELSE VMin([i \in 1..p.M |-> NAbs(p.ineq[i].a)])
      z == IF p.M = 0 THEN "0" ELSE (g \oslash amin) \oplus "1"
  IN  ("1e-6" \otimes p.M) \oplus ("8" \otimes par.kktTol \otimes ("1" \oplus VNorm1(dx) \oplus VNorm1(xs) \oplus y \oplus z)) \oplus "1e-9"
           \oplus (NMul("1e-12", g) \otimes (VNorm1(dx) \oplus "1"))
(* The reduced Hessian on the null space of the constraints, shifted by t times its scale. *)
Reduced(p, t) == LET Z == NullBasis(p.A, p.N) IN IF p.K = 0 THEN MSubDiag(p.G, NNeg(t \otimes MNormInf(p.G)))
                                                  ELSE Congruence(Z, MSubDiag(p.G, NNeg(t \otimes ("1e-30" \oplus MNormInf(p.G)))))
Well(p) == LET H == KKTEq(p) IN Regular(H) /\ (Eps \otimes InvNorm(H) \otimes MNormInf(H)) \prec "1e-7" /\ LET R == Reduced(p, "0") IN R = <<>> \/ PosDef(R)
Convex(p) == PosDef(MSubDiag(p.G, "1e-10" \otimes ("1e-30" \oplus MNormInf(p.G))))
MinimiserIp(p, well) == Imp(Rec.qp.kind = "ip" /\ Rec.qp.term = "SATISFIED_KKT_TOL" /\ well /\ p.M <= 5 /\ HasQPStar(p),
                      LET xs == QPStar(p) d == VSub(Dx, xs) IN (VDot(d, MVec(p.G, d)) \oslash "2") \preceq StepGap(p, Dx, xs))
MinimiserNs(p, well) == Imp(Rec.qp.kind = "ns" /\ well,
                      LET H == KKTEq(p) s == LinSolve(H, VScale("-1", p.c) \o VScale("-1", p.b)) kap == InvNorm(H) \otimes MNormInf(H)
                          mag == VNormInf(s) \oplus (InvNorm(H) \otimes (VNormInf(p.c) \oplus VNormInf(p.b)))
                      IN \A i \in 1..p.N : Near(Dx[i], s[i], DxErr[i] \oplus ("1000" \otimes Eps \otimes kap \otimes mag)))
(* An indefinite subproblem ends the run and leaves no entry. *)
DefiniteNs(p) == Imp(Rec.qp.kind = "ns", LET R == Reduced(p, "1e-9") IN R = <<>> \/ Rank(p.A) < p.K \/ PosDef(R))
C08Indef(p) == [ indefinite |-> Imp(Rec.qp.kind = "ns", Rec.qp.term = "SUCCESS"), indefinite_seen |-> DefiniteNs(p) ]
C09Damped(p) == LET well == Well(p) IN [ damped |-> Imp("0" \prec lam, MinimiserIp(p, well) /\ MinimiserNs(p, well)) ]
C12Rules(p) ==
  LET well == Well(p) IN
  [ errors |-> ErrsOK(prob, ev.lin, Rec.f, Rec.q),
    slope_f |-> Near(Rec.df, SlopeF(p, Dx), U(VDot(p.cabs, VAbs(Dx))) \oplus VDot(VAbs(p.c), DxErr)),
    slope_q |-> Near(Rec.dq, SlopeQ(p, Dx), U(VNorm1(MVec(MAbs(p.A), VAbs(Dx)))) \oplus VNorm1(MVec(MAbs(p.A), DxErr))),
    solver |-> Rec.qp.kind = (IF prob.nullspace THEN "ns" ELSE "ip"),
    qp_budget |-> Rec.qp.n <= NMaxI(par.maxQp, 1),
    qp_tolerance |-> Imp(Rec.qp.kind = "ip" /\ Rec.qp.term = "SATISFIED_KKT_TOL", Rec.qp.last \prec par.kktTol),
    qp_exhausted |-> Imp(Rec.qp.kind = "ip" /\ Rec.qp.term # "SATISFIED_KKT_TOL", Rec.qp.n = NMaxI(par.maxQp, 1)),
    minimiser_ip |-> MinimiserIp(p, well), minimiser_ns |-> MinimiserNs(p, well),
    definite |-> DefiniteNs(p),
    eigen |-> IF par.eig THEN Len(Rec.eig) = 3 /\ EigOK(p.G, Rec.eig) ELSE Rec.eig = <<>> ]
(* With additive steps: bounds met at the start are met everywhere; otherwise no violation grows. *)
BoundSlack(q, v) == NNeg("1e-8" \oplus U(BoundMag(q, v)))
C13Rules ==
  [ inside |-> Imp(feas, \A j \in DOMAIN ev.tries : \A i \in DOMAIN prob.ineq : BoundSlack(prob.ineq[i], ev.tries[j].x) \preceq BoundVal(prob.ineq[i], ev.tries[j].x)),
    grows |-> \A j \in DOMAIN ev.tries : \A i \in DOMAIN prob.ineq :
                 (NMin(BoundVal(prob.ineq[i], x), "0") \oplus BoundSlack(prob.ineq[i], ev.tries[j].x)) \preceq BoundVal(prob.ineq[i], ev.tries[j].x) ]

Expect == IF k + 1 \in DOMAIN par.expect THEN <<par.expect[k + 1]>> ELSE <<>>
C08Expect == [ replay |-> par.expect = <<>> \/ (Expect # <<>> /\ "res" \in DOMAIN Expect[1] /\ Expect[1].res = Rec.res) ]
C09Expect == [ replay |-> par.expect = <<>> \/ (Expect # <<>> /\ "mode" \in DOMAIN Expect[1] /\ Expect[1].mode = Rec.mode /\ NearR(Expect[1].lam, Rec.lam, "1e-12")) ]
C10Expect == [ replay |-> par.expect = <<>> \/ (Expect # <<>> /\ "n" \in DOMAIN Expect[1] /\ Expect[1].n = NSteps) ]

IterHits(p) ==
  {"iter", "res_" \o Rec.res, "qp_" \o Rec.qp.kind \o "_" \o Rec.qp.term, "mode_" \o Rec.mode}
   \cup Opt(Rec.res = "SUCCESS" /\ NSteps > 1, "backed_off") \cup Opt(Rec.res = "SUCCESS" /\ mode = Restore, "recovered")
   \cup Opt(Failing(Rec.res) /\ mode = Restore, "ramped") \cup Opt(par.ls = "ARMIJO_BACKTRACK" /\ NSteps > 2, "backtracks")
   \cup Opt(par.ls # "ARMIJO_BACKTRACK" /\ NSteps > 1, "quadratic") \cup Opt(par.ls # "ARMIJO_BACKTRACK" /\ NSteps > 2, "cubic")
   \cup Opt(Rec.pen # pen /\ Rec.qp.kind = "ip", "penalty_ip") \cup Opt(Rec.pen # pen /\ Rec.qp.kind = "ns", "penalty_ns")
   \cup Opt("0" \prec Rec.lam, "damped") \cup Opt(par.eig, "eigen") \cup Opt(~ans, "cb_false") \cup Opt(par.expect # <<>>, "replayed")
   \cup Opt(prob.ineq # <<>> /\ Additive(prob), "bounds") \cup Opt(prob.ineq # <<>> /\ Additive(prob) /\ ~feas, "bounds_outside")
   \cup Opt(\E i \in DOMAIN prob.ineq : NAbs(BoundVal(prob.ineq[i], NewX)) \preceq "1e-3", "bounds_active")
   \cup Opt(prob.retr = "bend", "bend") \cup Opt(k > 0 /\ exits # {"none"} /\ "none" \in exits, "tight_exit")
   \cup (IF Want("C12") THEN Opt(Well(p) /\ Rec.qp.kind = "ip" /\ Rec.qp.term = "SATISFIED_KKT_TOL", "well_ip") \cup Opt(Well(p) /\ Rec.qp.kind = "ns", "well_ns") ELSE {})
   \cup (IF Want("C10") /\ NSteps > 1 /\ par.ls # "ARMIJO_BACKTRACK"
         THEN Opt(QuadStep(LS, Steps[1]).sharp, "sharp_quadratic") \cup Opt(NSteps > 2 /\ CubicStep(LS, Steps[1], Steps[2]).sharp, "sharp_cubic") ELSE {})

Iter ==
  /\ ev.e = "iter"
  /\ IF bad \/ ~Shape \/ ~Numeric
     THEN /\ Consume((IF bad \/ Shape THEN {} ELSE {"C07.shape", "C10.shape", "C12.shape"}) \cup (IF bad \/ ~Shape \/ Numeric \/ ~FiniteLin(ev.lin) \/ VFinite(Dx) \/ LET p == SubQP(prob, x, ev.lin, lam) IN ~(Convex(p) /\ Well(p) /\ HasQPStar(p)) THEN {} ELSE {"C12.finite"}), {"not_followed"})
          /\ bad' = TRUE /\ k' = k + 1 /\ UNCHANGED <<prob, par, x, lam, mode, pen, exits, ans, feas, indef>>
     ELSE LET p == IF Want("C09") \/ Want("C11") \/ Want("C12") \/ (Want("C08") /\ Rec.qp.kind = "ns") THEN SubQP(prob, x, ev.lin, Rec.lam) ELSE [N |-> 0]
              lam1 == NextLambda(par, mode, Rec.lam, Rec.res)
          IN
          /\ Consume( (IF Want("C07") THEN Failed("C07", C07Rules) ELSE {}) \cup (IF Want("C08") THEN Failed("C08", C08Rules) \cup Failed("C08", C08Expect) \cup Failed("C08", C08Indef(p)) ELSE {})
                      \cup (IF Want("C09") THEN Failed("C09", C09Rules) \cup Failed("C09", C09Expect) \cup Failed("C09", C09Damped(p)) ELSE {})
                      \cup (IF Want("C10") THEN Failed("C10", C10Rules) \cup Failed("C10", C10Expect) ELSE {})
                      \cup (IF Want("C11") THEN Failed("C11", C11Rules(p)) ELSE {})
                      \cup (IF Want("C12") THEN Failed("C12", C12Rules(p)) ELSE {})
                      \cup (IF Want("C13") /\ Additive(prob) /\ Consistent1(prob) THEN Failed("C13", C13Rules) ELSE {}),
                      IterHits(p))
          /\ x' = NewX /\ lam' = lam1 /\ mode' = NextMode(mode, Rec.res) /\ pen' = Rec.pen
          /\ exits' = ExitSet(par, LS, Rec.res, lam1, LastStep) /\ ans' = ev.answer /\ k' = k + 1
          /\ UNCHANGED <<prob, par, feas, bad, indef>>

(* A linearisation that no log entry follows: the subproblem was refused, or something threw. *)
TailEv ==
  /\ ev.e = "tail"
  /\ LET can == ~bad /\ Len(ev.x) = prob.n /\ Complete(prob, ev.lin) /\ FiniteLin(ev.lin)
         p == SubQP(prob, x, ev.lin, lam)
         ok == can => /\ VEq(ev.x, x) /\ k < par.maxIter /\ (k = 0 \/ ("none" \in exits /\ ans))
     IN  /\ Consume(IF ok THEN {} ELSE {"C08.tail"}, {"tail"})
         /\ indef' = IF ~can THEN {"yes", "no", "hard"}
                     ELSE IF ~prob.nullspace THEN (IF Convex(p) /\ Well(p) /\ HasQPStar(p) THEN {"no"} ELSE {"no", "hard"})
                     ELSE LET R == Reduced(p, "-1e-9") IN IF R # <<>> /\ ~PosDef(R) THEN {"yes"} ELSE IF Rank(p.A) < p.K THEN {"yes", "no"} ELSE {"no"}
         /\ bad' = (bad \/ ~can)
  /\ UNCHANGED <<prob, par, x, lam, mode, pen, exits, ans, k, feas>>



Ret ==
  /\ ev.e = "ret"
  /\ LET t == ev.term
         c08 == [ known |-> t \in Terms, bounded |-> ev.n <= par.maxIter, count |-> ev.n = k /\ ev.ncb = (IF prob.cbset THEN k ELSE 0),
                  verdict |-> \/ t = "MAX_ITERATIONS" /\ k = par.maxIter /\ "none" \in exits /\ ans /\ indef = {}
                              \/ t = "QP_INDEFINITE" /\ "yes" \in indef
                              \/ t = "USER_CALLBACK" /\ k > 0 /\ ~ans /\ "none" \in exits /\ indef = {}
                              \/ t \notin {"MAX_ITERATIONS", "QP_INDEFINITE", "USER_CALLBACK"} /\ k > 0 /\ t \in exits /\ indef = {},
                  replay |-> par.expect = <<>> \/ (t = par.expect[Len(par.expect)].term /\ k = Len(par.expect) - 1) ]
         c07 == [ final |-> VEq(ev.vars, x), value |-> TRUE ]
     IN  /\ Consume(IF bad THEN {} ELSE Failed("C08", c08) \cup Failed("C07", c07), {"term_" \o t})
  /\ UNCHANGED <<prob, par, x, lam, mode, pen, exits, ans, k, feas, bad, indef>>

(* The optimum of a linear problem is judged from its last linearisation, recomputed by the harness at the returned point with no damping. *)
Opt14 ==
  /\ ev.e = "opt"
  /\ LET p == SubQP(prob, ev.x, ev.lin, "0")
         can == Complete(prob, ev.lin) /\ FiniteLin(ev.lin)
     IN  IF ~can \/ ~Well(p) \/ ~HasQPStar(p) THEN Consume({}, {"opt_skipped"})
         ELSE LET d == QPStar(p)     \* displacement to the constrained minimiser of the (linear) problem
                  sc == "1" \oplus CostOf(prob, ev.lin) \oplus EqErrOf(prob, ev.lin)
                  c14 == [ verdict |-> ev.term \in {"SATISFIED_ABSOLUTE_TOL", "SATISFIED_RELATIVE_TOL", "SATISFIED_FIRST_ORDER_TOL"},
                           minimiser |-> (VDot(d, MVec(p.G, d)) \oslash "2") \preceq ("1e-4" \otimes sc),
                           equality |-> EqErrOf(prob, ev.lin) \preceq ("1e-5" \otimes sc) ]
              IN Consume(Failed("C14", c14), {"optimum"} \cup Opt(prob.ineq # <<>>, "optimum_bounds") \cup Opt(prob.eqs # <<>>, "optimum_eq")
                          \cup Opt(\E i \in DOMAIN prob.ineq : NAbs(BoundVal(prob.ineq[i], ev.x)) \preceq "1e-4", "optimum_active"))
  /\ UNCHANGED <<prob, par, x, lam, mode, pen, exits, ans, k, feas, bad, indef>>

(* Exceptions only follow values that no solver can use. *)
Exc ==
  /\ ev.e = "exc"
  /\ Consume(IF bad \/ "hard" \in indef THEN {} ELSE {"C08.exception", "C14.exception"}, {"exception"})
  /\ UNCHANGED <<prob, par, x, lam, mode, pen, exits, ans, k, feas, bad, indef>>

End == ev.e = "end" /\ Consume({}, {}) /\ UNCHANGED <<prob, par, x, lam, mode, pen, exits, ans, k, feas, bad, indef>>

Next == More /\ (Start \/ Iter \/ TailEv \/ Ret \/ Opt14 \/ Exc \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
