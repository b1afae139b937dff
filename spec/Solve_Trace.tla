---------------------------- MODULE Solve_Trace ----------------------------
(***************************************************************************)
(* Recorded solves of problems with a known solution.  Where the problem,  *)
(* the parameters and the start are well-posed (decided here, from the     *)
(* recorded evaluations), the solve has to end satisfied at the solution;  *)
(* instances of the model have to end as the model does.                   *)
(***************************************************************************)
EXTENDS Solve, TraceBase

VARIABLE st
vars == <<l, viol, hits, st>>
Init == BaseInit /\ st = [n |-> 0]

Start == /\ ev.e = "start"
         /\ LET p == [n |-> ev.n, costs |-> ev.costs, eqs |-> ev.eqs, ineq |-> ev.ineq] IN
            st' = [n |-> ev.n, prob |-> p, par |-> ev.par, xs |-> ev.xs, lin |-> ev.lin, curv |-> ev.curv, expect |-> ev.expect,
                   known |-> Sensible(p, ev.par) /\ SolutionAt(p, ev.xs, ev.lin)]
         /\ Consume({}, {"scenario"})

(* With equalities and bounds together the inner solver may run into a bound before it meets the equalities; such solves are not judged. *)
InnerDone == ev.open = 0 \/ st.prob.eqs = <<>> \/ st.prob.ineq = <<>>
Judged == st.known /\ InnerDone /\ StartsInside(st.prob, ev.x0) /\ Bend(st.prob, st.xs, st.lin, st.curv, ev.x0) \preceq "1/2"
AsModel == \E i \in DOMAIN st.expect : /\ st.expect[i].term = ev.term /\ st.expect[i].n = ev.n
                                       /\ \A v \in 1..st.n : Near(st.expect[i].x[v], ev.x[v], "1e-6")
Active == \E i \in DOMAIN st.prob.ineq : NAbs(IneqVal(st.prob.ineq[i], st.xs)) \preceq "1e-9"
MultAt == LET p == SubQP(st.prob, st.xs, st.lin, "0") IN Mult(p).y
Moved == "1/20" \preceq Norm2(VSub(ev.x0, st.xs))
Solved ==
  /\ ev.e = "solved"
  /\ LET j == Judged IN
     Consume((IF j THEN Failed("C25", SolvedRules(st.prob, st.par, st.xs, st.lin, ev.term, ev.n, ev.x)) ELSE {})
               \cup (IF st.expect # <<>> THEN Failed("C25", [as_model |-> AsModel]) ELSE {}),
             IF ~j THEN {"not_judged"} \cup Opt(st.expect # <<>>, "model_run")
             ELSE {"judged", "term_" \o ev.term, "ls_" \o st.par.ls} \cup Opt(st.prob.ineq = <<>> /\ st.prob.eqs = <<>> /\ Moved, "free") \cup Opt(st.prob.eqs # <<>> /\ st.prob.ineq = <<>> /\ Moved, "equalities")
                  \cup Opt(st.prob.ineq # <<>> /\ Moved, "bounds") \cup Opt(Active /\ Moved, "active") \cup Opt(st.prob.eqs # <<>> /\ Active, "both") \cup Opt(~Moved, "at_solution") \cup Opt(ev.call > 1, "again")
                  \cup Opt("0" \prec CurvSize(st.curv) /\ Moved, "curved") \cup Opt("1e-3" \preceq CostOf(st.prob, st.lin) /\ "0" \prec CurvSize(st.curv), "residual_left") \cup Opt("0" \prec st.par.lam0, "damped") \cup Opt(st.prob.eqs # <<>> /\ Moved /\ "2000" \preceq VNormInf(MultAt), "large_multipliers")
                  \cup Opt(st.expect # <<>>, "model_run"))
  /\ UNCHANGED st
End == ev.e = "end" /\ Consume({}, {}) /\ UNCHANGED st
Next == More /\ (Start \/ Solved \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
