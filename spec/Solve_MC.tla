----------------------------- MODULE Solve_MC ------------------------------
(***************************************************************************)
(* The nonlinear solver run to its end on every instance of a finite       *)
(* family of problems, in rounded arithmetic.  Well-posed instances end    *)
(* with a satisfied verdict at their solution, whatever the parameters;    *)
(* and every run keeps the rules that hold for all problems.  The outcomes *)
(* are printed for replay into the real solver.                            *)
(***************************************************************************)
EXTENDS Solve, Json

CONSTANTS Family, Dump

Lin1(id, c, a) == [id |-> id, R |-> 1, idx |-> <<1>>, c0 |-> <<c>>, a |-> <<<<a>>>>, Q |-> << <<<<"0">>>> >>]
Cur1(id, c, a, q) == [id |-> id, R |-> 1, idx |-> <<1>>, c0 |-> <<c>>, a |-> <<<<a>>>>, Q |-> << <<<<q>>>> >>]
Z2 == << <<"0", "0">>, <<"0", "0">> >>
Fn2(id, c, a, b, Q) == [id |-> id, R |-> 1, idx |-> <<1, 2>>, c0 |-> <<c>>, a |-> <<<<a, b>>>>, Q |-> <<Q>>]
Sq(h) == << <<h, "0">>, <<"0", h>> >>
Xy(h) == << <<"0", h>>, <<"0", "0">> >>
Ineq(v, a, b) == [v |-> v, a |-> a, b |-> b]

(* The solution is at the origin: residuals a x + curvature, bounds active there or away from it. *)
Curvs == IF Family = "small" THEN {"0", "1/4"} ELSE {"0", "1/4", "-1/8", "1", "-1"}
One == { [n |-> 1, costs |-> <<Cur1(1, r, "1", q)>> \o (IF r = "0" THEN <<>> ELSE <<Lin1(2, NStr(NNeg(r)), "1")>>), eqs |-> <<>>, ineq |-> b] :
           r \in {"0", "1/2"}, q \in Curvs, b \in {<<>>, <<Ineq(1, "1", "1")>>, <<Ineq(1, "2", "1/2"), Ineq(1, "-1", "1/2")>>} }
       \cup { [n |-> 1, costs |-> <<Cur1(1, "1", "1", q)>>, eqs |-> <<>>, ineq |-> <<Ineq(1, "1", "0")>>] : q \in Curvs }
Two == { [n |-> 2, costs |-> <<Fn2(1, "0", "1", "1/2", Sq(q)), Fn2(2, "0", "0", "1", Xy(h))>>, eqs |-> e, ineq |-> b] :
           q \in Curvs, h \in {"0", "1/2"}, e \in {<<>>, <<Fn2(3, "0", "1", "-1", Z2)>>, <<Fn2(3, "0", "1", "1", Sq("1/4"))>>, <<Fn2(3, "0", "1", "1", Z2), Fn2(4, "0", "1", "-1", Xy("1/4"))>>},
           b \in (IF Family = "small" THEN {<<>>} ELSE {<<>>, <<Ineq(1, "1", "1"), Ineq(2, "-1", "2")>>}) }
       \cup { [n |-> 2, costs |-> <<Fn2(1, "1/2", "1", "0", Sq(q)), Fn2(2, "1", "0", "1", Z2)>>, eqs |-> <<Fn2(3, "0", "1", "2", Xy(h))>>, ineq |-> <<>>] : q \in Curvs, h \in {"0", "1/4"} }
(* Strongly curved problems without a solution that the rules could ask for: the line search, the damping and the failures are at work here. *)
Quad2(id, c, a, b, h) == [id |-> id, R |-> 1, idx |-> <<1, 2>>, c0 |-> <<c>>, a |-> <<<<a, b>>>>, Q |-> << << <<h, "0">>, <<"0", "0">> >> >>]
Hard == { [n |-> 1, costs |-> <<Cur1(1, c, a, q)>> \o w, eqs |-> <<>>, ineq |-> <<>>] :
            c \in {"-1", "2"}, a \in (IF Family = "small" THEN {"1"} ELSE {"1", "0"}), q \in {"1", "-2"}, w \in {<<>>, <<Lin1(2, "-3", "1/2")>>} }
Hard2 == { [n |-> 2, costs |-> <<Quad2(1, "0", "0", w, NStr(NNeg(w))), Quad2(2, "1", "-1", "0", "0")>>, eqs |-> e, ineq |-> <<>>] :
             w \in (IF Family = "small" THEN {"4"} ELSE {"4", "10"}), e \in {<<>>, <<Fn2(3, "-2", "0", "0", Sq("1"))>>, <<Fn2(3, "-1/2", "1", "0", Xy("1"))>>} }
Problems == One \cup Two \cup Hard \cup Hard2
IsHard(p) == p \in Hard \cup Hard2

Base == [maxIter |-> 40, maxQp |-> 30, kktTol |-> "1e-14", gradTol |-> "1e-6", absTol |-> "1e-12", relTol |-> "1e-5", maxLS |-> 2, ls |-> "POLYNOMIAL_APPROXIMATION", tau |-> "0.8",
         pen0 |-> "1", penScale |-> "1.01", rho |-> "0.1", lam0 |-> "0", lamFail |-> "1e-2", decS |-> "0.1", decR |-> "0.8", maxLam |-> "1", minLam |-> "0"]
Pars == { Base, [Base EXCEPT !.ls = "ARMIJO_BACKTRACK", !.tau = "0.5", !.maxLS = 4, !.pen0 = "0.01", !.penScale = "1.5"],
          [Base EXCEPT !.lam0 = "0.01", !.lamFail = "0.001", !.minLam = "1e-6", !.relTol = "1e-9", !.pen0 = "10"] }
        \cup (IF Family = "small" THEN {} ELSE { [Base EXCEPT !.gradTol = "1e-8", !.relTol = "0", !.maxLS = 7, !.rho = "0.5"], [Base EXCEPT !.ls = "ARMIJO_BACKTRACK", !.tau = "0.3", !.lam0 = "0.01", !.maxLam = "100"] })
HardPars == { [Base EXCEPT !.maxLam = "100"], [Base EXCEPT !.ls = "ARMIJO_BACKTRACK", !.maxLS = 5], [Base EXCEPT !.ls = "ARMIJO_BACKTRACK", !.tau = "1/2", !.maxLS = 3], [Base EXCEPT !.maxLS = 0, !.lamFail = "0.05", !.maxLam = "1000", !.pen0 = "1/4"],
              [Base EXCEPT !.maxLS = 4, !.lam0 = "1/2", !.minLam = "1/100", !.decS = "1/2", !.maxIter = 6], [Base EXCEPT !.maxLS = 1, !.lamFail = "0.5", !.maxLam = "2", !.decR = "1/4", !.penScale = "2"] }
HardStarts(n) == IF n = 1 THEN {<<"1/8">>, <<"3">>, <<"-2">>} ELSE {<<"-1.2", "1">>, <<"1/4", "1/8">>, <<"-2", "-1/2">>}
Starts(n) == IF n = 1 THEN {<<"0">>, <<"1/2">>, <<"-1/4">>, <<"3">>} ELSE {<<"0", "0">>, <<"1/2", "-1/4">>, <<"-1/4", "1/2">>, <<"-1/4", "-1/2">>, <<"2", "1">>} \ (IF Family = "small" THEN {<<"0", "0">>} ELSE {})

VARIABLES prob, par, x0, s, well
vars == <<prob, par, x0, s, well>>
(* The solution nearest to the origin: where Newton's method on the optimality system of the instance ends; only instances whose solution is the origin are judged. *)
xs == Zeros(prob.n)
Init == \E p \in Problems : \E q \in (IF IsHard(p) THEN HardPars ELSE Pars) : \E v \in (IF IsHard(p) THEN HardStarts(p.n) ELSE Starts(p.n)) :
          /\ prob = p /\ par = q /\ x0 = v /\ s = Begin(q, v)
          /\ well = LET o == Zeros(p.n) f == p.costs \o p.eqs IN WellPosed(p, q, o, FnCalls(f, o), FnCurv(f), v)
Iterate == s.term = "none" /\ s' \in Iterations(prob, par, s) /\ UNCHANGED <<prob, par, x0, well>>
Next == Iterate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished == s.term # "none"
SolvesWellPosed == (Finished /\ well) => LET R == SolvedRules(prob, par, xs, FnCalls(prob.costs \o prob.eqs, xs), s.term, s.k, s.x) IN \A r \in DOMAIN R : R[r]
KnownVerdict == s.term \in Terms \cup {"none", "stuck"}
Bounded == s.k <= par.maxIter
Inside == StartsInside(prob, x0) => \A i \in DOMAIN prob.ineq : "-1e-12" \preceq IneqVal(prob.ineq[i], s.x)
DampingInRange == s.term # "MAX_LAMBDA" => s.lam \preceq par.maxLam
Terminates == <>Finished
(* Merit at the penalty in force never grows. *)
MeritFalls == [][Merit(ErrAt(prob, s'.x), s'.pen) \preceq (Merit(ErrAt(prob, s.x), s'.pen) \oplus "1e-15")]_vars
PenaltyGrows == [][s.pen \preceq s'.pen]_vars

Print1 == (Dump /\ Finished) => PrintT("VERIF-RUN " \o ToJson([prob |-> prob, par |-> par, x0 |-> x0, term |-> s.term, k |-> s.k, x |-> VStr(s.x), well |-> well, seen |-> s.seen]))
=============================================================================
