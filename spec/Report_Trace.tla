---------------------------- MODULE Report_Trace ----------------------------
(* Statistics, reports and documents of constructed outputs against Report. *)
EXTENDS Report, TraceBase, TLC

vars == <<l, viol, hits>>
Init == BaseInit

NamesEv == ev.e = "names" /\ Consume(Failed("C18", [own_name |-> \A k \in DOMAIN ev.names : ev.names[k][2] = ev.names[k][1] /\ ev.names[k][3] = ev.names[k][1]]), {"names"})

ReportEv ==
  /\ ev.e = "report"
  /\ LET log == ev.log IN
     Consume(Failed("C18", [qp_count |-> ev.nqp = NumQP(log), try_count |-> ev.ntry = NumTries(log), failed_count |-> ev.nfail = NumFailed(log),
                            text |-> \A k \in 1..4 : ShowsAll(ev.texts[k].lines, Lines(log, ev.texts[k].qp)),
                            colour |-> \A k \in 1..4 : IF ev.texts[k].color THEN CodesOK(ev.texts[k].codes, log) ELSE ev.texts[k].codes = <<>>,
                            single |-> Len(ev.parts) = Len(log.its) /\ \A k \in DOMAIN log.its : ShowsAll(ev.parts[k], EntryLines(log.its[k], TRUE))]),
             {"term_" \o log.term, "report"} \cup {"res_" \o log.its[k].res : k \in DOMAIN log.its} \cup {"mode_" \o log.its[k].mode : k \in DOMAIN log.its}
             \cup {"qp_" \o log.its[k].qp.kind \o "_" \o log.its[k].qp.term : k \in DOMAIN log.its} \cup Opt(log.its = <<>>, "empty_log")
             \cup Opt(NumTries(log) > 3, "many_tries") \cup Opt(\E k \in DOMAIN log.its : log.its[k].eig # <<>>, "eigenvalues")
             \cup Opt(\E k \in DOMAIN log.its : \E j \in DOMAIN log.its[k].qp.its : ~NIsNaN(log.its[k].qp.its[j].out[6]), "probe"))
JsonEv ==
  /\ ev.e = "json"
  /\ Consume(Failed("C19", [readable |-> ev.failed = "none",
                            round_trip |-> ev.failed = "none" => ev.back = <<Normal(ev.log)>>,
                            direct |-> ev.failed = "none" => ev.direct[1] = ev.log,
                            names |-> ev.failed = "none" => SameBag(ev.strings, Names(ev.log))]),
             {"json"} \cup Opt(Normal(ev.log) # ev.log, "non_finite") \cup {"jterm_" \o ev.log.term} \cup {"jqp_" \o ev.log.its[k].qp.kind : k \in DOMAIN ev.log.its}
             \cup Opt(\E k \in DOMAIN ev.log.its : ev.log.its[k].eig = <<>>, "no_eigenvalues") \cup Opt(\E k \in DOMAIN ev.log.its : ev.log.its[k].eig # <<>>, "eigenvalues")
             \cup Opt(\E k \in DOMAIN ev.log.its : ev.log.its[k].qp.lag # <<>>, "multipliers") \cup Opt(\E k \in DOMAIN ev.log.its : ev.log.its[k].qp.kind = "ip" /\ ev.log.its[k].qp.lag = <<>>, "no_multipliers"))
End == ev.e = "end" /\ Consume({}, {})
Next == More /\ (NamesEv \/ ReportEv \/ JsonEv \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
