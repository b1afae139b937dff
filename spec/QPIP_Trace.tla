----------------------------- MODULE QPIP_Trace ----------------------------
(* Recorded runs of QPInteriorPointSolver with budgets 1, 2, ... against QPIP. *)
EXTENDS QPIP, TraceBase

VARIABLES prob, par, st, known, mu, muKnown, k, hash, last, div   \* div: the iterates left the moderate range
vars == <<l, viol, hits, prob, par, st, known, mu, muKnown, k, hash, last, div>>

StOf(e) == [x |-> e.x, s |-> e.s, y |-> e.y, z |-> e.z]
NoSt == [x |-> <<>>, s |-> <<>>, y |-> <<>>, z |-> <<>>]
NoRun == [term |-> "none", len |-> 0, hash |-> "none"]

Init == BaseInit /\ prob = [N |-> 0] /\ par = [tag |-> "none"] /\ st = NoSt /\ known = FALSE /\ mu = "0" /\ muKnown = FALSE
        /\ k = 0 /\ hash = "none" /\ last = NoRun /\ div = FALSE

Start ==
  /\ ev.e = "start"
  /\ LET p == [N |-> ev.N, M |-> ev.M, K |-> ev.K, G |-> SymLow(Mat(ev.G)), c |-> ev.c, A |-> Mat(ev.A), b |-> ev.b, ineq |-> ev.ineq]
         user == ev.guess = "USER_PROVIDED"
     IN  /\ prob' = p
         /\ par' = [mu0 |-> ev.mu0, sigma |-> ev.sigma, kktTol |-> ev.kktTol, compTol |-> ev.compTol, budget |-> ev.budget,
                    strat |-> ev.strat, guess |-> ev.guess, gate |-> ev.gate, initComp |-> ev.initComp, tag |-> ev.tag, every |-> ev.every]
         /\ st' = StOf(ev) /\ known' = user
         /\ muKnown' = (~ev.initComp \/ user)
         /\ mu' = IF ~ev.initComp THEN ev.mu0 ELSE IF user THEN Compl(p, StOf(ev)) ELSE "0"
  /\ k' = 0 /\ hash' = "none" /\ last' = NoRun /\ div' = FALSE
  /\ Consume({}, {"scenario", "scn_" \o ev.tag} \cup Opt(\E i, j \in 1..ev.N : i < j /\ ev.G[i][j] # ev.G[j][i], "upper_garbage"))

Entry == ev.it[1]
MuF == IF (par.strat = PC /\ prob.M > 0) THEN mu ELSE Entry.mu
MuFKnown == IF (par.strat = PC /\ prob.M > 0) THEN muKnown ELSE TRUE

(* The verdict depended on one residual: it is the only one at or above a tolerance that it is close to. *)
NearHits(st1) ==
  LET n == Norms(prob, st1, MuF) t == par.kktTol m == MaxNorm(n) mean == Compl(prob, st1)
      near == (t \otimes "0.7") \preceq m /\ m \preceq (t \otimes "2.1")
      inTol == mean \prec par.compTol
      one(v) == near /\ inTol /\ v = m
  IN  Opt(one(n.d), "near_dual") \cup Opt(one(n.e), "near_eq") \cup Opt(one(n.i), "near_ineq") \cup Opt(one(n.c), "near_comp")
      \cup Opt(near /\ inTol /\ m \prec t, "near_below") \cup Opt(near /\ inTol /\ t \prec m, "near_above")
      \cup Opt(prob.M > 0 /\ m \prec t /\ (par.compTol \otimes "0.7") \preceq mean /\ mean \preceq (par.compTol \otimes "2.1"), "near_mu")

StartSeen == Want("C23") /\ k = 0 /\ par.every /\ ev.k = 1
RetShapeOK == SizesOK(prob, StOf(ev)) /\ Len(ev.it) = 1

Ret ==
  /\ ev.e = "ret"
  /\ LET st1 == StOf(ev) seqRun == par.every
         badShape == ~RetShapeOK
         c04 == [ length |-> IF seqRun THEN ev.len = k + 1 /\ ev.k = k + 1 ELSE 1 <= ev.len /\ ev.len <= ev.k /\ (ev.term # "SATISFIED_KKT_TOL" => ev.len = ev.k),
                  prefix |-> (seqRun => ev.pre = hash) \/ k = 0 ]
     IN  IF badShape
         THEN Consume({"C01.shape", "C04.shape"}, {}) /\ UNCHANGED <<prob, par, st, known, mu, muKnown, k, hash, last, div>>
         ELSE LET kmax == MaxNorm(Entry.k1)
                  fin == ~div /\ Moderate(st1) /\ (~known \/ Moderate(st))
              IN
              /\ Consume( Failed("C04", c04)
                          \cup (IF fin THEN Failed("C02", StateRules(prob, par, st1)) ELSE IF ~div /\ ~(FinState(st1) /\ Interior(st1)) THEN {"C02.interior"} ELSE {})
                          \cup (IF ~FinState(st1) THEN Failed("C01", [ sat_finite |-> ev.term # "SATISFIED_KKT_TOL" ]) ELSE {})
                          \cup (IF fin THEN Failed("C01", VerdictRules(prob, par, st1, Entry, ev.term, ev.lag, MuFKnown, MuF)) ELSE {})
                          \cup (IF fin THEN Failed("C04", LogRules(prob, par, known /\ seqRun, st, st1, Entry, MuFKnown /\ (seqRun => muKnown), IF seqRun THEN mu ELSE MuF, kmax)) ELSE {})
                          \cup (IF fin /\ known /\ seqRun THEN Failed("C03", StepRules(prob, par, st, st1, Entry)) ELSE {})
                          \cup (IF StartSeen THEN Failed("C23", GuessRules(prob, par, st, mu, muKnown, Entry, st1)) ELSE {})
                          \cup (IF fin /\ par.tag = "wellposed" /\ ev.k = par.budget THEN Failed("C05", OptimalRules(prob, par, st1, ev.term)) ELSE {}),
                        (IF fin /\ known /\ seqRun THEN StepHits(prob, par, st, Entry) ELSE {})
                          \cup (IF StartSeen THEN GuessHits(prob, par) ELSE {})
                          \cup (IF fin /\ MuFKnown /\ par.tag = "threshold" /\ Want("C01") THEN NearHits(st1) ELSE {})
                          \cup Opt(~FinState(st1), "not_finite") \cup Opt(ev.term = "SATISFIED_KKT_TOL" /\ par.tag \notin {"step", "traj", "wellposed", "start", "threshold"}, "sat_degenerate")
                          \cup {"ret", "ret_" \o ev.term} \cup Opt(par.guess # "USER_PROVIDED" /\ prob.M > 0 /\ BoundsConsistent(prob), "feasible_checked")
                          \cup Opt(par.guess # "USER_PROVIDED" /\ prob.M > 0 /\ ev.term = "MAX_ITERATIONS", "feasible_truncated")
                          \cup Opt(prob.K > 0 /\ ev.term = "SATISFIED_KKT_TOL", "sat_eq") \cup Opt(prob.M > 0 /\ ev.term = "SATISFIED_KKT_TOL", "sat_ineq")
                          \cup Opt(par.tag = "wellposed" /\ ev.k = par.budget /\ HasQPStar(prob), "solved")
                          \cup Opt(par.tag = "wellposed" /\ ev.k = par.budget /\ \E i \in 1..prob.M : st1.z[i] \succ "1e-2", "solved_active")
                          \cup Opt(par.tag = "wellposed" /\ ev.k = par.budget /\ prob.K > 0, "solved_eq")
                          \cup Opt(par.gate /\ MuF \prec kmax, "gated") \cup Opt(k > 0 /\ seqRun, "prefix")
                          \cup Opt(k > 0 /\ seqRun /\ muKnown, "schedule_" \o par.strat)
                          \cup Opt(known /\ seqRun, "err_before")  )
              /\ st' = st1 /\ known' = seqRun
              /\ k' = ev.len /\ hash' = ev.full
              /\ mu' = IF fin THEN NextMu(prob, par, st1, MuF, kmax) ELSE "0"
              /\ muKnown' = (fin /\ seqRun /\ MuFKnown /\ ~(par.gate /\ NearR(kmax, MuF, "1e-9") /\ par.strat = PC))
              /\ last' = [term |-> ev.term, len |-> ev.len, hash |-> ev.full]
              /\ div' = (div \/ ~fin)
              /\ UNCHANGED <<prob, par>>

(* The same problem with a larger budget after convergence: nothing may change. *)
Rerun ==
  /\ ev.e = "rerun"
  /\ Consume(Failed("C04", [ same_run |-> ev.same /\ ev.full = last.hash /\ ev.len = last.len ]) \cup Failed("C01", [ same_verdict |-> ev.term = last.term ]), {"rerun"})
  /\ UNCHANGED <<prob, par, st, known, mu, muKnown, k, hash, last, div>>

(* Solving again from where the variables are: nothing but the variables carries over, whichever way they were written. *)
Warm ==
  /\ ev.e = "warm"
  /\ Consume(Failed("C23", [ continued |-> ev.cont = ev.set, written |-> ev.blocks = ev.set, kept |-> ev.kept /\ ev.written ]), {"warm"} \cup Opt(ev.bounded, "warm_bounds") \cup Opt(ev.cont # ev.first, "warm_moved"))
  /\ UNCHANGED <<prob, par, st, known, mu, muKnown, k, hash, last, div>>

(* No exception is expected: the generated problems have positive definite cost and interior starting points. *)
Exc ==
  /\ ev.e = "exc"
  /\ Consume(IF div THEN {} ELSE {"C03.exception", "C05.exception"}, {})
  /\ UNCHANGED <<prob, par, st, known, mu, muKnown, k, hash, last, div>>

End == ev.e = "end" /\ Consume({}, {}) /\ UNCHANGED <<prob, par, st, known, mu, muKnown, k, hash, last, div>>

Next == More /\ (Start \/ Ret \/ Rerun \/ Warm \/ Exc \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
