------------------------------- MODULE NLS_MC -------------------------------
(***************************************************************************)
(* The nonlinear solver's control logic, explored exhaustively: the        *)
(* environment chooses what each linearisation and each candidate shows    *)
(* (slopes and errors from a finite set) and what the callback answers;    *)
(* the solver part is deterministic and given by the operators of NLS with *)
(* exact numbers.  With Dump = TRUE every transition is printed with one   *)
(* history that reaches it, to be replayed into the real solver.           *)
(***************************************************************************)
EXTENDS NLS, Json

CONSTANTS Depth, Dump, Flavours     \* Flavours: a set of indices into Pars

Base == [maxIter |-> Depth, gradTol |-> "1e-6", absTol |-> "1e-4", relTol |-> "0.5", maxLS |-> 2, tau |-> "0.5", penScale |-> "1.5", rho |-> "0.1",
         lam0 |-> "0", lamFail |-> "0.02", decS |-> "0.1", decR |-> "0.8", maxLam |-> "0.5", minLam |-> "0", eq |-> FALSE]
Pars == << [Base EXCEPT !.maxLS = 2] @@ [ls |-> "ARMIJO_BACKTRACK", name |-> "backtrack"],
           [Base EXCEPT !.maxLS = 3, !.gradTol = "0"] @@ [ls |-> "POLYNOMIAL_APPROXIMATION", name |-> "polynomial"],
           [Base EXCEPT !.lam0 = "0.3", !.minLam = "0.125", !.lamFail = "0.01", !.maxLam = "7"] @@ [ls |-> "ARMIJO_BACKTRACK", name |-> "damped"],
           [Base EXCEPT !.lam0 = "0.3", !.maxLam = "0.3", !.maxLS = 0, !.decS = "0"] @@ [ls |-> "POLYNOMIAL_APPROXIMATION", name |-> "capped"],
           [Base EXCEPT !.eq = TRUE, !.maxLS = 1] @@ [ls |-> "POLYNOMIAL_APPROXIMATION", name |-> "constrained"] >>

Classes == {"down", "up", "flat"}
LinOf(c, pen) == CASE c = "down" -> [f |-> "0.5", q |-> "0", df |-> "-10", dq |-> "0", pen |-> pen]
                   [] c = "up"   -> [f |-> "0.5", q |-> "0", df |-> "10", dq |-> "0", pen |-> pen]
                   [] c = "flat" -> [f |-> "0", q |-> "0", df |-> "0", dq |-> "0", pen |-> pen]
                   [] c = "eq"   -> [f |-> "0.5", q |-> "1", df |-> "0.75", dq |-> "-1", pen |-> pen]
TryVals == {"0", "0.5", "0.775", "1", "2", "nan"}     \* error of a candidate; its cost is half the square
FOf(e) == IF e = "nan" THEN "nan" ELSE (e \otimes e) \oslash "2"

VARIABLES par, phase, cls, l, steps, lam, mode, pen, k, run, hist, verdict
vars == <<par, phase, cls, l, steps, lam, mode, pen, k, run, hist, verdict>>
(* run: consecutive failures; hist: what the environment did and what the solver showed, iteration by iteration. *)
NoLin == [f |-> "0", q |-> "0", df |-> "0", dq |-> "0", pen |-> "1"]

Init == /\ par \in {Pars[i] : i \in Flavours}
        /\ phase = "lin" /\ cls = "down" /\ l = NoLin /\ steps = <<>> /\ lam = NStr(par.lam0) /\ mode = Nominal /\ pen = "1" /\ k = 0 /\ run = 0 /\ hist = <<>> /\ verdict = "none"

Linearise ==
  /\ phase = "lin" /\ verdict = "none"
  /\ IF k = par.maxIter THEN verdict' = "MAX_ITERATIONS" /\ UNCHANGED <<par, phase, cls, l, steps, lam, mode, pen, k, run, hist>>
     ELSE \E c \in (IF par.eq THEN {"eq", "down"} ELSE Classes), req \in (IF par.eq THEN {"0.5", "2", "5"} ELSE {"0"}) :
            LET p1 == NStr(NextPenalty(par, pen, req)) IN
            /\ cls' = c /\ pen' = p1 /\ l' = LinOf(c, p1) /\ steps' = <<>> /\ phase' = "try"
            /\ UNCHANGED <<par, lam, mode, k, run, hist, verdict>>

(* One more candidate, at the step length the rule gives. *)
Try ==
  /\ phase = "try"
  /\ LET m == Len(steps) nx == IF m = 0 THEN [valid |-> {TRUE}, lo |-> "1", hi |-> "1"] ELSE NextStep(par, l, steps)
         go == m = 0 \/ ("no" \in Verdicts(par, l, steps[m]) /\ m < par.maxLS + 1 /\ TRUE \in nx.valid)
     IN  IF go THEN \E e \in (IF cls = "flat" THEN {"0"} ELSE TryVals), q \in (IF par.eq THEN {"0", "1", "3"} ELSE {"0"}) :
                       /\ steps' = Append(steps, [a |-> NStr(nx.lo), e |-> e, f |-> NStr(FOf(e)), q |-> q]) /\ UNCHANGED <<par, phase, cls, l, lam, mode, pen, k, run, hist, verdict>>
         ELSE phase' = "done" /\ UNCHANGED <<par, cls, l, steps, lam, mode, pen, k, run, hist, verdict>>

Res == CHOOSE r \in Outcomes(par, l, steps) : TRUE
Finish ==
  /\ phase = "done"
  /\ \E answer \in BOOLEAN :
     LET lam1 == NStr(NextLambda(par, mode, lam, Res)) mode1 == NextMode(mode, Res)
         ex == CHOOSE x \in ExitSet(par, l, Res, lam1, steps[Len(steps)]) : TRUE
         v == IF ex # "none" THEN ex ELSE IF answer THEN "none" ELSE "USER_CALLBACK"
         h == Append(hist, [cls |-> cls, tries |-> [i \in DOMAIN steps |-> steps[i].e], res |-> Res, mode |-> mode1, lam |-> lam, n |-> Len(steps), answer |-> answer])
     IN  /\ lam' = lam1 /\ mode' = mode1 /\ k' = k + 1 /\ run' = (IF Failing(Res) THEN run + 1 ELSE IF Res = "SUCCESS" THEN 0 ELSE run)
         /\ verdict' = v /\ phase' = "lin" /\ steps' = <<>> /\ hist' = h /\ cls' = "down" /\ l' = NoLin
         /\ (Dump /\ ~par.eq => PrintT("VERIF-HIST " \o ToJson([par |-> par.name, hist |-> h, term |-> IF v = "none" THEN "MAX_ITERATIONS" ELSE v])))
         /\ UNCHANGED <<par, pen>>

Next == Linearise \/ Try \/ Finish
Spec == Init /\ [][Next]_vars
View == <<par, phase, cls, l, steps, lam, mode, pen, k, run, verdict>>

----------------------------------------------------------------------------
(* With exact numbers the design leaves no choice. *)
Deterministic == phase = "done" => /\ Cardinality(Outcomes(par, l, steps)) = 1
                                   /\ LET lam1 == NextLambda(par, mode, lam, Res) IN Cardinality(ExitSet(par, l, Res, lam1, steps[Len(steps)])) = 1
StepsShrink == /\ \A i \in 1..(Len(steps) - 1) : steps[i + 1].a \prec steps[i].a
               /\ \A i \in DOMAIN steps : "0" \prec steps[i].a /\ steps[i].a \preceq "1"
               /\ Len(steps) <= par.maxLS + 1
DampingBounded == verdict # "MAX_LAMBDA" => par.minLam \preceq lam /\ (lam \preceq par.maxLam)
ModeMeaning == (mode = Restore) <=> run > 0
(* Failures in a row cannot go on: each raises the damping tenfold until the maximum is passed. *)
FailuresBounded == verdict = "none" /\ run > 0 => LET P[i \in 1..run] == IF i = 1 THEN par.lamFail ELSE P[i-1] \otimes "10" IN P[run] \preceq par.maxLam
AcceptedDecrease == phase = "done" /\ Res = "SUCCESS" => LET s == steps[Len(steps)] IN FiniteErr(s) /\ Merit(s, l.pen) \preceq Merit(l, l.pen)
PenaltyGrows == "1" \preceq pen
RunBounded == k <= par.maxIter
VerdictTrue == /\ verdict \in Terms \cup {"none"}
               /\ (verdict = "MAX_LAMBDA" => par.maxLam \prec lam)
               /\ (verdict = "MAX_ITERATIONS" => k = par.maxIter)
=============================================================================
