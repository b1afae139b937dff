------------------------------ MODULE QPIP_MC ------------------------------
(***************************************************************************)
(* Model checking of the interior point solver: the whole Solve loop, on   *)
(* every instance of a finite family, with the rules of QPIP as            *)
(* invariants.  With Eps = "0" the arithmetic is exact (short runs);        *)
(* otherwise every stored value is rounded to a double, which allows     *)
(* long runs to convergence (the run is bounded, so "converges" is the     *)
(* invariant NeverExhausts).                                               *)
(***************************************************************************)
EXTENDS QPIP, Json, IOUtils

CONSTANTS MaxIter, Family

Ineq(v, a, b) == [v |-> v, a |-> a, b |-> b]
P1(g, c, A, b, q) == [N |-> 1, M |-> Len(q), K |-> Len(A), G |-> <<<<g>>>>, c |-> <<c>>, A |-> A, b |-> b, ineq |-> q]
P2(G, c, A, b, q) == [N |-> 2, M |-> Len(q), K |-> Len(A), G |-> G, c |-> c, A |-> A, b |-> b, ineq |-> q]

B1 == { <<>>, <<Ineq(1, "1", "0")>>, <<Ineq(1, "-1", "1")>>, <<Ineq(1, "2", "1"), Ineq(1, "-1", "3")>>, <<Ineq(1, "1", "-1"), Ineq(1, "1", "0")>> }
B2 == { <<>>, <<Ineq(1, "1", "0")>>, <<Ineq(2, "-1", "1")>>, <<Ineq(1, "1", "0"), Ineq(2, "1", "-1/2")>>, <<Ineq(2, "3", "1"), Ineq(2, "-1", "2"), Ineq(1, "-1/2", "1")>> }
G2 == { <<<<"2", "0">>, <<"0", "1">>>>, <<<<"2", "1">>, <<"1", "3">>>>, <<<<"1", "-1/2">>, <<"-1/2", "4">>>> }
(* Equality constraints that meet the interior of all bound sets of B1, B2. *)
E1 == { [A |-> <<>>, b |-> <<>>] }
E2 == { [A |-> <<>>, b |-> <<>>], [A |-> <<<<"1", "1">>>>, b |-> <<"-1">>], [A |-> <<<<"2", "-1">>>>, b |-> <<"0">>] }

Problems ==
  IF Family = "small"
  THEN { P1("2", c, e.A, e.b, q) : c \in {"1", "-3"}, e \in E1, q \in B1 } \cup { P2(G, <<c, "-2">>, e.A, e.b, q) : G \in G2 \ {<<<<"2", "0">>, <<"0", "1">>>>}, c \in {"3"}, e \in E2, q \in B2 }
  ELSE { P1(g, c, e.A, e.b, q) : g \in {"2", "1/3"}, c \in {"0", "1", "-1", "-3", "5"}, e \in E1, q \in B1 } \cup { P2(G, <<c, d>>, e.A, e.b, q) : G \in G2, c \in {"3", "-4"}, d \in {"-2", "1"}, e \in E2, q \in B2 }

Params == [ mu0 : {"1"}, sigma : IF Family = "small" THEN {"1/10"} ELSE {"1/10", "1/2"}, kktTol : {"1e-9", "1/2"}, compTol : {"1e-6"},
            budget : {MaxIter}, strat : {"COMPLEMENTARITY", "FIXED_DECREASE", PC}, guess : {"NAIVE", "SOLVE_EQUALITY_CONSTRAINED"},
            gate : BOOLEAN, initComp : BOOLEAN ]

VARIABLES prob, par, st, mu, k, term, it, prev, muPrev
vars == <<prob, par, st, mu, k, term, it, prev, muPrev>>

Rounded == ~Exact
NoIt == [mu |-> "nan"]

Init == \E p \in Problems, q \in Params :
          /\ prob = p /\ par = q /\ st = FlSt(InitialGuess(p, q))
          /\ mu = IF q.initComp THEN Fl(Compl(p, st)) ELSE q.mu0
          /\ k = 0 /\ term = "running" /\ it = NoIt /\ prev = st /\ muPrev = mu

Iterate ==
  /\ term = "running" /\ k < par.budget
  /\ LET r == SpecIterate(prob, par, st, mu) s1 == r.st IN
       /\ st' = s1 /\ it' = r.it /\ prev' = st /\ muPrev' = mu /\ k' = k + 1
       /\ term' = IF Converged(prob, par, s1, r.it) THEN "SATISFIED_KKT_TOL" ELSE IF k + 1 = par.budget THEN "MAX_ITERATIONS" ELSE "running"
       /\ mu' = Fl(NextMu(prob, par, s1, mu, MaxNorm(r.it.k1)))
  /\ UNCHANGED <<prob, par>>
Done == term # "running" /\ UNCHANGED vars

Next == Iterate \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

All(rules) == \A r \in DOMAIN rules : rules[r]
Stepped == k > 0
(* C01 *)
VerdictTruthful == (Stepped /\ term # "running") => All(VerdictRules(prob, par, st, it, term, IF prob.K = 0 THEN <<>> ELSE <<VMin(st.y), VNormInf(st.y)>>, TRUE, muPrev))
(* C02 *)
StaysInside == All(StateRules(prob, par, st))
SlackExact == Rounded \/ \A i \in 1..prob.M : LET r == RIneq(prob, st)[i] IN "-1e-9" \preceq r /\ r \preceq "0"
(* C03 *)
NewtonStep == Stepped => All(StepRules(prob, par, prev, st, it))
(* C04 *)
LogMatches == Stepped => All(LogRules(prob, par, TRUE, prev, st, it, TRUE, muPrev, "0"))
MuNonNegative == "0" \preceq mu
MuDecreases == (par.strat = "FIXED_DECREASE") => mu \preceq muPrev
(* C23: the guesses are what they are called. *)
GuessSlack == \A i \in 1..prob.M : ("1e-9" \preceq st.s[i] /\ NearR(st.s[i] \otimes st.z[i], "1", IF Rounded THEN "1e-15" ELSE "0"))
GuessInside == BoundsConsistent(prob) => (\A i \in 1..prob.M : (IF Rounded THEN "-1e-15" ELSE "0") \preceq IneqVal(prob.ineq[i], st.x))
GuessNaive == (\A j \in 1..prob.K : NEq(st.y[j], "0")) /\ ((\A i \in 1..prob.M : "0" \preceq prob.ineq[i].b) => (\A v \in 1..prob.N : NEq(st.x[v], "0")))
GuessEquality == LET q == [prob EXCEPT !.M = 0, !.ineq = <<>>] f == InitialGuess(q, par) IN
                 /\ NEq(VNormInf(RDual(q, f)), "0") /\ NEq(VNormInf(REq(q, f)), "0")
                 /\ ((\A i \in 1..prob.M : "0" \preceq IneqVal(prob.ineq[i], f.x)) => st.x = f.x)
GuessAsNamed == (k = 0) => (GuessSlack /\ GuessInside /\ (par.guess = "NAIVE" => GuessNaive) /\ ((par.guess # "NAIVE" /\ ~Rounded) => GuessEquality))
FirstStep == (k = 1 /\ ~Rounded) => All(GuessRules(prob, par, prev, muPrev, TRUE, it, st))
(* C05: convergence to the minimiser. *)
MinimiserFound == (term = "SATISFIED_KKT_TOL") => All(OptimalRules(prob, par, st, term))
WellPosed == HasQPStar(prob)
NeverExhausts == ~(par.strat # PC /\ ~par.gate /\ term = "MAX_ITERATIONS" /\ Rounded)

(* The instances, for replay into the implementation. *)
Dump == ("DUMP" \in DOMAIN IOEnv) => (k = 0 => PrintT("VERIF-SCN " \o ToJson([prob |-> prob, par |-> par])))
=============================================================================
