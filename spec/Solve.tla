------------------------------- MODULE Solve -------------------------------
(***************************************************************************)
(* Which nonlinear problems the solver has to solve, what solving them     *)
(* means, and the whole algorithm as an executable model.                  *)
(*                                                                         *)
(* Well-posed: a known point xs satisfies the optimality conditions with   *)
(* strict complementarity, the optimality system at xs is regular, the     *)
(* start meets the bounds, and the curvature of the residuals is small     *)
(* against the conditioning times the distance to go and the size of the   *)
(* residuals that remain (then each Gauss-Newton step contracts).          *)
(***************************************************************************)
EXTENDS NLS

CONSTANT Fault      \* "none", or a defect built into the model, which the properties have to refute

ActiveAt(p) == SetToAscSeq({i \in 1..p.M : NAbs(p.ineq[i].b) \preceq "1e-9"})      \* p: the subproblem at the point
(* Step and multipliers of the active system of a subproblem; empty if it is singular. *)
Mult(p) == LET act == ActiveAt(p) S == ActiveSystem(p, act) d == LinSolve(S, ActiveRhs(p, act)) IN
           IF Len(d) # p.N + p.K + Len(act) THEN [ok |-> FALSE, d |-> <<>>, y |-> <<>>, z |-> <<>>, kap |-> "inf"]
           ELSE [ok |-> TRUE, d |-> SubSeq(d, 1, p.N), y |-> SubSeq(d, p.N + 1, p.N + p.K), z |-> SubSeq(d, p.N + p.K + 1, Len(d)), kap |-> InvNorm(S)]
(* prob: [n, costs, eqs, ineq]; calls: the functions evaluated at xs. *)
SolutionAt(prob, xs, calls) ==
  LET p == SubQP(prob, xs, calls, "0") m == Mult(p) IN
  /\ m.ok /\ VNormInf(m.d) \preceq "1e-9" /\ VNorm1(p.b) \preceq "1e-9"
  /\ PosDef(MSubDiag(p.G, "1e-2"))
  /\ \A i \in DOMAIN m.z : "1/50" \preceq m.z[i]
  /\ \A i \in 1..p.M : NAbs(p.ineq[i].b) \preceq "1e-9" \/ "1/10" \preceq p.ineq[i].b
(* How far from linear the problem is, seen from x0; curv: the second derivatives of all residual entries. *)
CurvSize(curv) == NSqrt(VSum([i \in DOMAIN curv |-> VSum([r \in DOMAIN curv[i] |-> VSum([q \in DOMAIN curv[i][r] |-> VNorm2Sq(curv[i][r][q])])])]))
Bend(prob, xs, calls, curv, x0) ==
  LET p == SubQP(prob, xs, calls, "0") m == Mult(p) J == StackJ(prob, prob.costs, calls) IN
  IF ~m.ok THEN "inf"
  ELSE m.kap \otimes CurvSize(curv) \otimes ((NMax(MNormInf(J), MNormInf(p.A)) \otimes Norm2(VSub(x0, xs))) \oplus Norm2(StackE(prob.costs, calls)) \oplus VNorm1(m.y))
(* Tolerances and budgets with which convergence can be asked for.  The interior point solver stops at a gap of the square root of its tolerance per bound. *)
QPGap(prob, par) == Len(prob.ineq) \otimes NSqrt(par.kktTol)
EnoughIterations == 15
Sensible(prob, par) ==
  /\ par.maxIter >= EnoughIterations /\ par.maxLS >= 1 /\ (prob.ineq = <<>> \/ par.maxQp >= 20)
  /\ "1e-8" \preceq par.gradTol /\ ("2" \otimes QPGap(prob, par)) \preceq par.gradTol /\ par.relTol \preceq "1e-3" /\ par.absTol \preceq "1e-6"
  /\ par.lam0 \preceq "1/100"
StartsInside(prob, x0) == \A i \in DOMAIN prob.ineq : "0" \preceq IneqVal(prob.ineq[i], x0)
WellPosed(prob, par, xs, calls, curv, x0) ==
  /\ Sensible(prob, par) /\ StartsInside(prob, x0) /\ SolutionAt(prob, xs, calls) /\ Bend(prob, xs, calls, curv, x0) \preceq "1/2"

Satisfied == {"SATISFIED_ABSOLUTE_TOL", "SATISFIED_RELATIVE_TOL", "SATISFIED_FIRST_ORDER_TOL"}
(* What the tolerances leave open, in terms of cost and constraint violation. *)
Excess(prob, xs, calls, x) ==
  LET p == SubQP(prob, xs, calls, "0") d == VSub(x, xs) IN (VDot(d, MVec(p.G, d)) \oslash "2") \oplus VNorm1(MVec(p.A, d))
LeftOpen(prob, par, calls) == par.gradTol \oplus (par.relTol \otimes CostOf(prob, calls)) \oplus par.absTol \oplus QPGap(prob, par) \oplus "1e-12"
SolvedRules(prob, par, xs, calls, term, n, x) ==
  [ verdict |-> term \in Satisfied, budget |-> n <= EnoughIterations,
    solution |-> VFinite(x) /\ Len(x) = prob.n /\ Excess(prob, xs, calls, x) \preceq ("2" \otimes LeftOpen(prob, par, calls)) ]

----------------------------------------------------------------------------
(* The algorithm, with stored numbers rounded to doubles.  A function is [id, R, idx, c0, a, Q]: e_r = c0[r] + a[r] p + p' Q[r] p. *)

R64(u) == Vec([i \in DOMAIN u |-> NF64(u[i])])
FnCall(g, x) ==
  LET p == Vec([j \in DOMAIN g.idx |-> x[g.idx[j]]])
      e == [r \in 1..g.R |-> NF64(g.c0[r] \oplus VDot(g.a[r], p) \oplus VDot(p, MVec(g.Q[r], p)))]
      J == [r \in 1..g.R |-> R64(VAdd(g.a[r], VAdd(MVec(g.Q[r], p), MTVec(g.Q[r], p, Len(p)))))]
  IN  [id |-> g.id, p |-> p, e |-> Vec(e), J |-> Mat(J)]
FnCalls(fns, x) == [i \in DOMAIN fns |-> FnCall(fns[i], x)]
FnCurv(fns) == [i \in DOMAIN fns |-> [r \in 1..fns[i].R |-> [a \in DOMAIN fns[i].Q[r] |-> [b \in DOMAIN fns[i].Q[r] |-> fns[i].Q[r][a][b] \oplus fns[i].Q[r][b][a]]]]]
FnProb(costs, eqs, ineq, n) == [n |-> n, costs |-> costs, eqs |-> eqs, ineq |-> ineq]
ErrAt(prob, x) == LET c == FnCalls(prob.costs \o prob.eqs, x) IN [f |-> NF64(CostOf(prob, c)), q |-> NF64(EqErrOf(prob, c))]

(* The exact step and the equality multipliers of a subproblem; refused where the reduced Hessian is not definite. *)
Refused(p) == p.K > 0 /\ p.M = 0 /\ LET Z == NullBasis(p.A, p.N) IN Z # <<>> /\ ~PosDef(Congruence(Z, p.G))
StepOf(p) ==
  LET S == CHOOSE S \in SUBSET (1..p.M) : Cardinality(S) <= p.N - p.K /\ OptimalFor(p, S) # <<>>
      d == LinSolve(ActiveSystem(p, SetToAscSeq(S)), ActiveRhs(p, SetToAscSeq(S)))
  IN  [dx |-> R64(SubSeq(d, 1, p.N)), y |-> SubSeq(d, p.N + 1, p.N + p.K)]
Candidate(prob, x, dx, a) == LET c == R64(VAdd(x, VScale(a, dx))) IN ErrAt(prob, c) @@ [a |-> a, x |-> c]
RECURSIVE Searches(_, _, _, _, _, _)
Searches(prob, par, l, x, dx, steps) ==      \* all line searches that round-off allows
  LET m == Len(steps) V == Verdicts(par, l, steps[m])
      nx == IF "no" \in V /\ m < par.maxLS + 1 THEN NextStep(par, l, steps) ELSE [valid |-> {FALSE}, lo |-> "0", hi |-> "0"]
  IN  (IF V # {"no"} \/ FALSE \in nx.valid THEN {steps} ELSE {})
      \cup (IF "no" \in V /\ TRUE \in nx.valid THEN Searches(prob, par, l, x, dx, Append(steps, Candidate(prob, x, dx, NF64((nx.lo \oplus nx.hi) \oslash "2")))) ELSE {})

(* What an iteration has been through. *)
Seen(s, steps, res) ==
  (IF Len(steps) >= 2 THEN {"backtracked"} ELSE {}) \cup (IF Len(steps) >= 3 THEN {"cubic"} ELSE {}) \cup (IF res \in {"SUCCESS", "FIRST_ORDER_SATISFIED"} THEN {} ELSE {"failed_" \o res})
  \cup (IF s.mode # Nominal THEN {"recovering"} ELSE {}) \cup (IF s.mode # Nominal /\ res = "SUCCESS" THEN {"restored"} ELSE {}) \cup (IF s.mode # Nominal /\ res \in {"MAX_ITERATIONS", "POSITIVE_DERIVATIVE"} THEN {"raised"} ELSE {})
  \cup (IF res = "SUCCESS" /\ Len(steps) >= 2 THEN {"shortened"} ELSE {}) \cup (IF res = "SUCCESS" /\ Len(steps) >= 3 THEN {"shortened_twice"} ELSE {})
(* The states after one iteration from s: [x, lam, mode, pen, k, term, seen]. *)
Iterations(prob, par, s) ==
  LET calls == FnCalls(prob.costs \o prob.eqs, s.x) p == SubQP(prob, s.x, calls, s.lam) IN
  IF Refused(p) THEN {[s EXCEPT !.term = "QP_INDEFINITE"]}
  ELSE IF ~HasQPStar(p) THEN {[s EXCEPT !.term = "stuck"]}
  ELSE LET st == StepOf(p)
           req == IF p.M = 0 THEN ReqQuad(par, p, st.dx) ELSE VNormInf(st.y)
           pen == IF p.K = 0 \/ Fault = "penalty_fixed" THEN s.pen ELSE NF64(NextPenalty(par, s.pen, req))
           l == [df |-> NF64(SlopeF(p, st.dx)), dq |-> NF64(SlopeQ(p, st.dx)), pen |-> pen] @@ ErrAt(prob, s.x)
           after(steps, res, exit) ==
             LET lam1 == NF64(NextLambda(par, s.mode, s.lam, res)) IN
             [seen |-> s.seen \cup Seen(s, steps, res), x |-> IF res = "SUCCESS" THEN steps[Len(steps)].x ELSE s.x, lam |-> lam1, mode |-> NextMode(s.mode, res), pen |-> pen, k |-> s.k + 1,
              term |-> IF exit # "none" THEN exit ELSE IF s.k + 1 = par.maxIter THEN "MAX_ITERATIONS" ELSE "none"]
       IN  UNION { UNION { { after(steps, res, exit) : exit \in IF Fault = "any_success" /\ res = "SUCCESS" THEN {"SATISFIED_RELATIVE_TOL"} ELSE ExitSet(par, l, res, NF64(NextLambda(par, s.mode, s.lam, res)), steps[Len(steps)]) }
                           : res \in Outcomes(par, l, steps) }
                   : steps \in Searches(prob, par, l, s.x, st.dx, <<Candidate(prob, s.x, st.dx, IF Fault = "short_steps" THEN "1/8" ELSE "1")>>) }
Begin(par, x0) == [x |-> R64(x0), lam |-> NF64(par.lam0), mode |-> Nominal, pen |-> NF64(par.pen0), k |-> 0, term |-> "none", seen |-> {}]
=============================================================================
