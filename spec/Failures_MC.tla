---------------------------- MODULE Failures_MC ----------------------------
EXTENDS Failures, TLC
Ks == [i \in DOMAIN calls |-> calls[i].kind]
Hs == [i \in DOMAIN calls |-> calls[i].held]
RaisedRight == out.k = "raised" => (Surfaces(out.call, Len(calls)) /\ Intact(calls[out.call].held, held))
NothingHidden == \A i \in DOMAIN calls : ~calls[i].ok => out = Raised(i)
Done == phase = "done" <=> out.k # "running"
Groups == out.k = "verdict" => Grouped(Ks, Cardinality(Residuals), Retraction, Callback)
Legal == ChangesLegally(Ks, Hs)
(* Wrong ways of handling a failure, each of which has to break a rule (Failures_MC_fault*.cfg find the counterexample). *)
Rules == RaisedRight /\ NothingHidden /\ Groups /\ Legal
=============================================================================
