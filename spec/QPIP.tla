------------------------------- MODULE QPIP --------------------------------
(***************************************************************************)
(* The interior point QP solver: one action per iteration.                 *)
(*                                                                         *)
(* SpecIterate is the design: from a primal-dual point and the carried     *)
(* barrier value it computes, exactly, the next point and the iteration    *)
(* record.  IterRules states what an iteration must satisfy; the model     *)
(* checking configuration applies the rules to SpecIterate with Eps = 0,   *)
(* the trace configuration applies them to recorded iterations with Eps    *)
(* the unit round-off of doubles.                                          *)
(*                                                                         *)
(* Parameters: [mu0, sigma, kktTol, compTol, budget, strat, guess, gate,   *)
(* initComp].                                                              *)
(***************************************************************************)
EXTENDS QP, TLC

CONSTANT Eps            \* relative size of round-off; "0" in the exact configurations

Tau == "0.995"          \* fraction to the boundary
PC  == "PREDICTOR_CORRECTOR"
Exact == NEq(Eps, "0")

(* Largest step in [0,1] along d that keeps val positive, shortened by tau if the boundary is (within "shift") in the way. *)
AlphaStep(val, d, tau, shift) ==
  LET B == {i \in DOMAIN val : (val[i] \oplus d[i]) \preceq shift[i] /\ d[i] \prec "0"}
  IN  IF B = {} THEN "1"
      ELSE LET f == [i \in B |-> (NNeg(tau) \otimes val[i]) \oslash d[i]]
               m == CHOOSE i \in B : \A j \in B : f[i] \preceq f[j]
           IN  NMin("1", f[m])
Alpha(val, d, tau) == AlphaStep(val, d, tau, Zeros(Len(val)))

Advance(st, d, ap, ad) == [x |-> VAdd(st.x, VScale(ap, d.x)), s |-> VAdd(st.s, VScale(ap, d.s)),
                           y |-> VAdd(st.y, VScale(ad, d.y)), z |-> VAdd(st.z, VScale(ad, d.z))]

(* Complementarity after moving along d with the given step lengths (equation 19.21). *)
MuAffine(p, st, d, ap, ad) == NMax("0", VDot(VAdd(st.s, VScale(ap, d.s)), VAdd(st.z, VScale(ad, d.z))) \oslash p.M)
(* Barrier value selected by the predictor-corrector rule (equation 19.22). *)
PCMu(p, st, ma) == LET c == Compl(p, st) q == ma \oslash c IN c \otimes q \otimes q \otimes q

(* Without exact arithmetic every stored quantity is rounded to a double. *)
Fl(a) == IF Exact THEN a ELSE NF64(a)
FlV(u) == IF Exact THEN u ELSE Vec([i \in DOMAIN u |-> NF64(u[i])])
FlSt(s) == [x |-> FlV(s.x), s |-> FlV(s.s), y |-> FlV(s.y), z |-> FlV(s.z)]

NoProbe == [pp |-> "nan", pd |-> "nan", ma |-> "nan"]
Probe(p, st) == LET aff == NewtonDir(p, st, "0", Zeros(p.M))
                    ap == Alpha(st.s, aff.s, "1") ad == Alpha(st.z, aff.z, "1")
                IN  [pp |-> Fl(ap), pd |-> Fl(ad), ma |-> Fl(MuAffine(p, st, aff, ap, ad)), aff |-> aff]
Corr(aff) == VHad(aff.s, aff.z)

Norms(p, st, mu) == [d |-> Norm2(RDual(p, st)), c |-> Norm2(RComp(p, st, mu)), e |-> Norm2(REq(p, st)), i |-> Norm2(RIneq(p, st))]
MaxNorm(n) == NMax(NMax(n.d, n.c), NMax(n.e, n.i))

SpecIterate(p, par, st, mu) ==
  LET pc  == par.strat = PC /\ p.M > 0
      pr  == Probe(p, st)
      m   == IF p.M = 0 THEN mu ELSE IF pc THEN Fl(PCMu(p, st, pr.ma)) ELSE mu
      d   == FlSt(NewtonDir(p, st, m, IF pc THEN Corr(pr.aff) ELSE Zeros(p.M)))
      ap  == Fl(Alpha(st.s, d.s, Tau)) ad == Fl(Alpha(st.z, d.z, Tau))
      st1 == FlSt(Advance(st, d, ap, ad))
  IN  [st |-> st1,
       it |-> [k0 |-> Norms(p, st, mu), k1 |-> Norms(p, st1, mu), mu |-> m, ap |-> ap, ad |-> ad,
               pp |-> IF pc THEN pr.pp ELSE "nan", pd |-> IF pc THEN pr.pd ELSE "nan", ma |-> IF pc THEN pr.ma ELSE "nan"]]

(* Barrier value carried to the next iteration. *)
NextMu(p, par, st1, mu, kmax) ==
  IF par.gate /\ mu \prec kmax THEN mu
  ELSE IF par.strat = "FIXED_DECREASE" THEN mu \otimes par.sigma ELSE par.sigma \otimes Compl(p, st1)

(* The convergence test. *)
Converged(p, par, st1, it) == MaxNorm(it.k1) \prec par.kktTol /\ Compl(p, st1) \prec par.compTol

(* Initial guesses generated by the solver itself. *)
ClampTo(q, v) == IF q.a \prec "0" THEN NMin(v, q.b \oslash NNeg(q.a)) ELSE NMax(v, NNeg(q.b) \oslash q.a)
ClampAll(p, x) == LET S[i \in 0..p.M] == IF i = 0 THEN x ELSE LET q == p.ineq[i] IN [S[i-1] EXCEPT ![q.v] = ClampTo(q, @)] IN Vec(S[p.M])
InitialGuess(p, par) ==
  LET free == NewtonDir([p EXCEPT !.M = 0, !.ineq = <<>>], [x |-> Zeros(p.N), s |-> <<>>, y |-> Zeros(p.K), z |-> <<>>], "0", <<>>)
      eqg  == par.guess = "SOLVE_EQUALITY_CONSTRAINED"
      x == ClampAll(p, IF eqg THEN free.x ELSE Zeros(p.N))
      s == Vec([i \in 1..p.M |-> NMax("1e-9", IneqVal(p.ineq[i], x))])
  IN  [x |-> x, s |-> s, y |-> IF eqg THEN free.y ELSE Zeros(p.K), z |-> Vec([i \in 1..p.M |-> "1" \oslash s[i]])]

(***************************************************************************)
(* Round-off bounds for the Newton direction as an implementation computes *)
(* it (reduced symmetric system, then back substitution).                  *)
(***************************************************************************)
ReducedMatrix(p, st) ==
  Mat([r \in 1..(p.N + p.K) |-> [c \in 1..(p.N + p.K) |->
    CASE r <= p.N /\ c <= p.N -> IF r # c THEN p.G[r][c]
            ELSE p.G[r][r] \oplus VSum([i \in 1..p.M |-> IF p.ineq[i].v = r THEN (p.ineq[i].a \otimes p.ineq[i].a \otimes st.z[i]) \oslash st.s[i] ELSE "0"])
      [] r <= p.N -> p.A[c - p.N][r]
      [] c <= p.N -> p.A[r - p.N][c]
      [] OTHER -> "0"]])
NewtonErr(p, st, mu, corr, corrErr, d) ==
  IF Exact THEN [x |-> "0", y |-> "0", s |-> Zeros(p.M), z |-> Zeros(p.M)]
  ELSE
  LET H == ReducedMatrix(p, st) inv == InvNorm(H) kappa == inv \otimes MNormInf(H)
      ri == VAdd(VAbs(RIneq(p, st)), [i \in 1..p.M |-> Eps \otimes MagIneq(p, st)])
      term == Vec([i \in 1..p.M |-> (NAbs(p.ineq[i].a) \otimes ((st.z[i] \otimes ri[i]) \oplus (st.s[i] \otimes st.z[i]) \oplus NAbs(corr[i]) \oplus mu)) \oslash st.s[i]])
      rmag == NMax(MagDual(p, st) \oplus VNorm1(term), MagEq(p, st))
      cerr == VNorm1([i \in 1..p.M |-> (NAbs(p.ineq[i].a) \otimes corrErr[i]) \oslash st.s[i]])
      ex == ("500" \otimes Eps \otimes inv \otimes rmag \otimes NMax("1", kappa)) \oplus (inv \otimes cerr)
      es == Vec([i \in 1..p.M |-> (NAbs(p.ineq[i].a) \otimes ex) \oplus ("20" \otimes Eps \otimes (MagIneq(p, st) \oplus NAbs(d.s[i])))])
      ez == Vec([i \in 1..p.M |-> (((st.z[i] \otimes (es[i] \oplus ("20" \otimes Eps \otimes NAbs(d.s[i])))) \oplus corrErr[i]) \oslash st.s[i])
                   \oplus ("20" \otimes Eps \otimes (st.z[i] \oplus ((NAbs(corr[i]) \oplus mu) \oslash st.s[i])))])
  IN [x |-> ex, y |-> ex, s |-> es, z |-> ez]
(* The reduced system is solvable in floating point. *)
Conditioned(p, st) == Exact \/ LET H == ReducedMatrix(p, st) IN (Eps \otimes InvNorm(H) \otimes MNormInf(H)) \prec "1e-3"
NoErr(p) == [x |-> "0", y |-> "0", s |-> Zeros(p.M), z |-> Zeros(p.M)]
CorrErr(aff, e) == Vec([i \in DOMAIN aff.s |-> (NAbs(aff.s[i]) \otimes e.z[i]) \oplus (NAbs(aff.z[i]) \otimes e.s[i]) \oplus (e.s[i] \otimes e.z[i])])

(* |u - (v + a d)| within the round-off of computing it from a direction with error e. *)
StepClose(u, v, a, d, e) == \A i \in DOMAIN u :
  Near(u[i], v[i] \oplus (a \otimes d[i]), (a \otimes e[i]) \oplus ("8" \otimes Eps \otimes (NAbs(v[i]) \oplus NAbs(a \otimes d[i]))))
Const(n, e) == [i \in 1..n |-> e]
(* The reported step length is the one the rule gives for a direction known up to e. *)
AlphaOK(a, val, d, tau, e) ==
  LET lo == AlphaStep(val, d, tau, e) hi == AlphaStep(val, d, tau, [i \in DOMAIN e |-> NNeg(e[i])])
      slack == IF Exact THEN "0" ELSE "1e-5"
  IN  (NMin(lo, hi) \otimes ("1" \ominus slack)) \preceq a /\ a \preceq (NMax(lo, hi) \otimes ("1" \oplus slack))
(* The direction is known accurately enough for its step lengths to be decidable. *)
Sharp(st, e) == \A i \in DOMAIN st.s : e.s[i] \preceq ("1e-7" \otimes st.s[i]) /\ e.z[i] \preceq ("1e-7" \otimes st.z[i])

NormClose(n, exact, mag) == Near(n, exact, ("1e-9" \otimes (IF Exact THEN "0" ELSE "1") \otimes exact) \oplus ("64" \otimes Eps \otimes mag))
NormsOK(p, st, mu, n) ==
  LET x == Norms(p, st, mu) IN
    /\ NormClose(n.d, x.d, MagDual(p, st)) /\ NormClose(n.e, x.e, MagEq(p, st))
    /\ NormClose(n.i, x.i, MagIneq(p, st)) /\ NormClose(n.c, x.c, MagComp(p, st, mu))

Imp(a, b) == a => b

(* C03 - what one iteration does, from st0 with carried barrier value muF, giving st1 and the record it. *)
StepRules(p, par, st0, st1, it) ==
  LET pc  == par.strat = PC /\ p.M > 0
      z0  == Zeros(p.M)
      pr  == Probe(p, st0)
      ea  == IF pc THEN NewtonErr(p, st0, "0", z0, z0, pr.aff) ELSE NoErr(p)
      cor == IF pc THEN Corr(pr.aff) ELSE z0
      d   == NewtonDir(p, st0, IF p.M = 0 THEN "0" ELSE it.mu, cor)
      e   == NewtonErr(p, st0, IF p.M = 0 THEN "0" ELSE it.mu, cor, IF pc THEN CorrErr(pr.aff, ea) ELSE z0, d)
      sharp == Sharp(st0, e)
      ok  == /\ Len(d.x) = p.N /\ Conditioned(p, st0)
  IN  [ newton_x |-> Imp(ok, StepClose(st1.x, st0.x, it.ap, d.x, Const(p.N, e.x))),
        newton_s |-> Imp(ok, StepClose(st1.s, st0.s, it.ap, d.s, e.s)),
        newton_y |-> Imp(ok, StepClose(st1.y, st0.y, it.ad, d.y, Const(p.K, e.y))),
        newton_z |-> Imp(ok, StepClose(st1.z, st0.z, it.ad, d.z, e.z)),
        alpha_p  |-> Imp(ok /\ sharp, AlphaOK(it.ap, st0.s, d.s, Tau, e.s)),
        alpha_d  |-> Imp(ok /\ sharp, AlphaOK(it.ad, st0.z, d.z, Tau, e.z)),
        alpha_range |-> "0" \prec it.ap /\ it.ap \preceq "1" /\ "0" \prec it.ad /\ it.ad \preceq "1",
        eq_contract |-> Imp(ok, LET r0 == REq(p, st0) r1 == REq(p, st1) IN
                        \A i \in 1..p.K : Near(r1[i], ("1" \ominus it.ap) \otimes r0[i],
                              IF Exact THEN "0" ELSE (MNormInf(p.A) \otimes e.x) \oplus ("64" \otimes Eps \otimes MagEq(p, st0)))),
        probe    |-> Imp(pc /\ Sharp(st0, ea),
                        /\ AlphaOK(it.pp, st0.s, pr.aff.s, "1", ea.s) /\ AlphaOK(it.pd, st0.z, pr.aff.z, "1", ea.z)
                        /\ Near(it.ma, pr.ma, IF Exact THEN "0" ELSE ("1e-5" \otimes VDot(VAdd(st0.s, VAbs(pr.aff.s)), VAdd(st0.z, VAbs(pr.aff.z)))) \oslash p.M)),
        pc_mu    |-> Imp(pc /\ NIsFin(it.ma), LET m == PCMu(p, st0, it.ma) IN Near(it.mu, m, IF Exact THEN "0" ELSE "1e-9" \otimes m)),
        no_probe |-> Imp(~pc, NIsNaN(it.pp) /\ NIsNaN(it.pd) /\ NIsNaN(it.ma)) ]
StepHits(p, par, st0, it) ==
  LET d == NewtonDir(p, st0, it.mu, Zeros(p.M)) e == NewtonErr(p, st0, it.mu, Zeros(p.M), Zeros(p.M), d)
  IN  {"step"} \cup (IF Len(d.x) = p.N /\ Conditioned(p, st0) THEN {"step_newton"} ELSE {}) \cup (IF par.strat = PC /\ p.M > 0 THEN {"step_pc"} ELSE {})
       \cup (IF Len(d.x) = p.N /\ Sharp(st0, e) THEN {"step_sharp"} ELSE {})
       \cup (IF it.ap \prec "1" THEN {"alpha_primal_cut"} ELSE {}) \cup (IF it.ad \prec "1" THEN {"alpha_dual_cut"} ELSE {})
       \cup (IF p.K > 0 THEN {"step_eq"} ELSE {}) \cup (IF p.M > 0 THEN {"step_ineq"} ELSE {})

(* C01 - the verdict reached after an iteration; mu is the carried barrier value of that iteration. *)
VerdictRules(p, par, st1, it, term, lag, muKnown, mu) ==
  LET n == Norms(p, st1, mu)
      w(mag) == "64" \otimes Eps \otimes mag
      prod == [i \in 1..p.M |-> st1.s[i] \otimes st1.z[i]]
      spread == IF p.M = 0 THEN "0" ELSE (VMax(prod) \ominus VMin(prod)) \oslash "2"
      sat == term = "SATISFIED_KKT_TOL"
      mg == IF Exact THEN "1" ELSE "1.000001"
  IN  [ sat_dual |-> Imp(sat, n.d \prec (par.kktTol \otimes mg \oplus w(MagDual(p, st1)))),
        sat_eq   |-> Imp(sat, n.e \prec (par.kktTol \otimes mg \oplus w(MagEq(p, st1)))),
        sat_ineq |-> Imp(sat, n.i \prec (par.kktTol \otimes mg \oplus w(MagIneq(p, st1)))),
        sat_comp |-> Imp(sat, spread \prec (par.kktTol \otimes mg \oplus w(MagComp(p, st1, "0")))),
        sat_mu   |-> Imp(sat, Compl(p, st1) \prec (par.compTol \otimes mg)),
        sat_strict |-> Imp(sat /\ muKnown, MaxNorm(n) \prec (par.kktTol \otimes mg \oplus w(NMax(NMax(MagDual(p, st1), MagEq(p, st1)), NMax(MagIneq(p, st1), MagComp(p, st1, mu)))))),
        not_sat  |-> Imp(~sat /\ muKnown /\ FinState(st1),
                         ~( (MaxNorm(n) \otimes mg \oplus w(NMax(NMax(MagDual(p, st1), MagEq(p, st1)), NMax(MagIneq(p, st1), MagComp(p, st1, mu))))) \prec par.kktTol
                            /\ (Compl(p, st1) \otimes mg) \prec par.compTol )),
        lag      |-> IF p.K = 0 THEN lag = <<>> ELSE Len(lag) = 2 /\ NEq(lag[1], VMin(st1.y)) /\ NEq(lag[2], VNormInf(st1.y)),
        term     |-> term \in {"SATISFIED_KKT_TOL", "MAX_ITERATIONS"} ]

(* C02 - interior and feasible. *)
StateRules(p, par, st1) ==
  [ finite   |-> FinState(st1),
    interior |-> Interior(st1),
    feasible |-> Imp(par.guess # "USER_PROVIDED" /\ BoundsConsistent(p),
                     \A i \in 1..p.M : (IF Exact THEN "-1e-9" ELSE NNeg("1e-8") \ominus ("64" \otimes Eps \otimes MagIneq(p, st1))) \preceq IneqVal(p.ineq[i], st1.x)) ]

(* C04 - log entry and barrier value. *)
LogRules(p, par, known, st0, st1, it, muKnown, mu, kmaxPrev) ==
  [ mu_schedule |-> Imp(muKnown /\ ~(par.strat = PC /\ p.M > 0), NearR(it.mu, mu, IF Exact THEN "0" ELSE "1e-12")),
    err_before  |-> Imp(known /\ muKnown, NormsOK(p, st0, mu, it.k0)),
    err_after   |-> Imp(muKnown, NormsOK(p, st1, mu, it.k1)),
    err_chain   |-> TRUE ]

(* C23 - the first iteration starts from the documented guess; n are the reported error norms before it.  Slacks in the     *)
(* sliver between the floor and round-off amplified by 1/slack are left out (GuessSharp).                                  *)
GuessSharp(p, g) == Len(g.x) = p.N /\ VFinite(g.x) /\ \A i \in 1..p.M : LET v == IneqVal(p.ineq[i], g.x) IN Exact \/ v \preceq "1e-12" \/ "1e-6" \preceq v
GuessNear(n, exact, mag, e) == Near(n, exact, IF Exact THEN "0" ELSE ("1e-6" \otimes exact) \oplus ("1e-11" \otimes mag) \oplus e)
GuessRules(p, par, user, mu, muKnown, it, st1) ==
  LET given == par.guess = "USER_PROVIDED" g == IF given THEN user ELSE InitialGuess(p, par) m == IF muKnown THEN mu ELSE Compl(p, g)
  IN  IF ~given /\ ~GuessSharp(p, g) THEN [ sharp |-> TRUE ]
      ELSE LET x == Norms(p, g, m)
               \* An error of the equality-only minimiser shows in all residuals, multiplied by the problem's coefficients.
               H == ReducedMatrix([p EXCEPT !.M = 0, !.ineq = <<>>], [x |-> g.x, s |-> <<>>, y |-> g.y, z |-> <<>>])
               well == Exact \/ par.guess # "SOLVE_EQUALITY_CONSTRAINED" \/ (InvNorm(H) \otimes MNormInf(H)) \prec "1e5"
               d == NewtonDir(p, g, IF p.M = 0 THEN "0" ELSE it.mu, Zeros(p.M))
               smooth == well /\ par.strat # PC /\ Conditioned(p, g) /\ (\A i \in 1..p.M : "1e-3" \preceq g.s[i]) /\ (Exact \/ LET F == ReducedMatrix(p, g) IN (InvNorm(F) \otimes MNormInf(F)) \prec "1e6")
               close(u, v, a, dd) == \A i \in DOMAIN u : Near(u[i], v[i] \oplus (a \otimes dd[i]), IF Exact THEN "0" ELSE "1e-5" \otimes ("1" \oplus VNormInf(v) \oplus VNormInf(dd)))
               q == [p EXCEPT !.M = 0, !.ineq = <<>>] zero == [x |-> Zeros(p.N), s |-> <<>>, y |-> Zeros(p.K), z |-> <<>>]
               ex == IF Exact \/ par.guess # "SOLVE_EQUALITY_CONSTRAINED" \/ ~well THEN "0" ELSE NewtonErr(q, zero, "0", <<>>, <<>>, zero).x
               nA == IF p.K = 0 THEN "0" ELSE VSum([i \in 1..p.K |-> VNorm1(p.A[i])])
               amax == IF p.M = 0 THEN "0" ELSE VNorm1([i \in 1..p.M |-> p.ineq[i].a])
           IN [ dual  |-> Imp(well, GuessNear(it.k0.d, x.d, MagDual(p, g), ex \otimes ("10" \otimes (MNormInf(p.G) \oplus nA)))),
                comp  |-> GuessNear(it.k0.c, x.c, NMax("1", MagComp(p, g, m)), "0"),
                equality |-> Imp(well, GuessNear(it.k0.e, x.e, MagEq(p, g), "10" \otimes nA \otimes ex)),
                slack |-> Imp(well, GuessNear(it.k0.i, x.i, MagIneq(p, g), "10" \otimes amax \otimes ex)),
                barrier |-> Imp(~(par.strat = PC /\ p.M > 0), GuessNear(it.mu, m, m, "0")),
                first_step |-> Imp(smooth, close(st1.x, g.x, it.ap, d.x) /\ close(st1.s, g.s, it.ap, d.s) /\ close(st1.y, g.y, it.ad, d.y) /\ close(st1.z, g.z, it.ad, d.z)) ]
GuessHits(p, par) ==
  IF par.guess = "USER_PROVIDED" THEN {"guess_USER_PROVIDED"} ELSE
  LET g == InitialGuess(p, par) free == InitialGuess([p EXCEPT !.M = 0, !.ineq = <<>>], par) IN
  IF ~GuessSharp(p, g) THEN {"guess_not_sharp"}
  ELSE {"guess_" \o par.guess} \cup (IF p.M > 0 /\ g.x # free.x THEN {"guess_clamped"} ELSE {}) \cup (IF p.M > 0 /\ g.x = free.x THEN {"guess_inside"} ELSE {})
       \cup (IF \E i \in 1..p.M : NEq(g.s[i], "1e-9") THEN {"guess_floored"} ELSE {}) \cup (IF ~BoundsConsistent(p) THEN {"guess_contradictory"} ELSE {})
       \cup (IF p.K > 0 /\ par.guess # "NAIVE" THEN {"guess_multipliers"} ELSE {}) \cup (IF \A i \in 1..p.M : "1e-3" \preceq g.s[i] THEN {"guess_first_step"} ELSE {})

(* C05 - the result of a converged run on a strictly convex problem. *)
OptimalRules(p, par, st1, term) ==
  IF ~HasQPStar(p) THEN [ solved |-> TRUE, minimiser |-> TRUE ]
  ELSE LET xs == QPStar(p) dx == VSub(st1.x, xs)
           gap == VDot(st1.s, st1.z) \oplus ("4" \otimes par.kktTol \otimes ("1" \oplus VNorm1(st1.x) \oplus VNorm1(xs) \oplus VNorm1(st1.y) \oplus VNorm1(st1.z)))
       IN  [ solved    |-> term = "SATISFIED_KKT_TOL",
             minimiser |-> (VDot(dx, MVec(p.G, dx)) \oslash "2") \preceq (gap \oplus "1e-9") ]
=============================================================================
