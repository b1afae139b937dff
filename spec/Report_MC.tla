----------------------------- MODULE Report_MC -----------------------------
(* All small logs: the statistics agree with the report, and reading inverts writing. *)
EXTENDS Report, TLC, Json
CONSTANTS MaxLen, Tries, Inners

VARIABLES log
Res == {"SUCCESS", "MAX_ITERATIONS", "FIRST_ORDER_SATISFIED", "POSITIVE_DERIVATIVE", "FAILURE_NON_FINITE_COST", "FAILURE_INVALID_ALPHA"}
Terms == {"MAX_ITERATIONS", "SATISFIED_ABSOLUTE_TOL", "SATISFIED_RELATIVE_TOL", "SATISFIED_FIRST_ORDER_TOL", "MAX_LAMBDA", "QP_INDEFINITE", "USER_CALLBACK"}
Inner(k) == [k0 |-> <<"1", "2", "3", "4">>, k1 |-> <<"nan", "0.5", "0", "9">>, out |-> <<"1", "0.5", "1", "nan", "1", IF k % 2 = 1 THEN "nan" ELSE "inf">>]
QPs == {[kind |-> "ns", term |-> t, its |-> <<>>, lag |-> <<>>] : t \in {"SUCCESS", "NOT_POSITIVE_DEFINITE"}} \cup
       {[kind |-> "ip", term |-> t, its |-> [k \in 1..n |-> Inner(k)], lag |-> g] : t \in {"SATISFIED_KKT_TOL", "MAX_ITERATIONS"}, n \in Inners, g \in {<<>>, <<"-1", "inf">>}}
Entries == {[i |-> n, mode |-> m, lam |-> "0.25", f |-> "3", c |-> "0.5", qp |-> q, eig |-> e, dd |-> <<"-1", "2">>, pen |-> "2", res |-> r, steps |-> [k \in 1..t |-> <<"0.5", "1", "nan">>]] :
              n \in {0}, m \in {"NOMINAL", "ATTEMPTING_RESTORE_LM"}, q \in QPs, e \in {<<>>, <<"1", "2", "1">>}, r \in Res, t \in Tries}
Init == log \in {[term |-> t, its |-> <<>>] : t \in Terms}
Add(e) == Len(log.its) < MaxLen /\ log' = [log EXCEPT !.its = Append(@, [e EXCEPT !.i = Len(log.its)])]
Next == \E e \in Entries : Add(e)
Spec == Init /\ [][Next]_log

Starts(lines, w, n) == Cardinality({k \in DOMAIN lines : Len(lines[k]) >= n /\ \A j \in 1..n : lines[k][j].k = "w" /\ lines[k][j].v = w[j]})
TryLine(x) == x[1] = W("f") /\ x[Len(x) - 1] = W("alpha")
Agree ==
  LET a == Lines(log, TRUE) b == Lines(log, FALSE) IN
  /\ NumTries(log) = Cardinality({k \in DOMAIN b : TryLine(b[k])})
  /\ NumTries(log) = Cardinality({k \in DOMAIN a : TryLine(a[k])})
  /\ NumQP(log) = Starts(a, <<"Iteration", "summary">>, 2) + Starts(a, <<"QP">>, 1)
  /\ Starts(b, <<"Iteration", "summary">>, 2) = 0
  /\ NumFailed(log) <= Len(log.its)
  /\ NumFailed(log) = Len(log.its) - Starts(b, <<"Search", "result", "SUCCESS">>, 3) - Starts(b, <<"Search", "result", "FIRST_ORDER_SATISFIED">>, 3)
  /\ b[Len(b)] = <<W("termination"), W(log.term)>>
Inverse == Read(Write(log)) = Normal(log) /\ Normal(Normal(log)) = Normal(log)
(* The totals are folds: adding an entry adds its share. *)
Additive == log.its # <<>> => LET rest == [log EXCEPT !.its = SubSeq(@, 1, Len(@) - 1)] last == [log EXCEPT !.its = <<log.its[Len(log.its)]>>] IN
  NumQP(log) = NumQP(rest) + NumQP(last) /\ NumTries(log) = NumTries(rest) + NumTries(last) /\ NumFailed(log) = NumFailed(rest) + NumFailed(last)
Dump == PrintT("VERIF-LOG " \o ToJson([term |-> log.term, its |-> [k \in DOMAIN log.its |-> LET e == log.its[k] IN [mode |-> e.mode, res |-> e.res, kind |-> e.qp.kind, qt |-> e.qp.term, n |-> Len(e.qp.its), lag |-> e.qp.lag # <<>>, eig |-> e.eig # <<>>, t |-> Len(e.steps)]]]))
=============================================================================
