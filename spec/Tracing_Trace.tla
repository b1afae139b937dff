---------------------------- MODULE Tracing_Trace ----------------------------
(* Exports of the real collector and recorded scopes against Tracing and Scopes. *)
EXTENDS Integers, Sequences, FiniteSets, TraceBase, TLC, Num
T == INSTANCE Tracing WITH Threads <- {}, Program <- <<>>, Cap <- 100000, Preload <- 0, Locking <- TRUE,
                           queue <- <<>>, owner <- 0, pc <- <<>>, at <- <<>>, made <- <<>>, order <- <<>>, exports <- {}, buffer <- <<>>
S == INSTANCE Scopes

vars == <<l, viol, hits>>
Init == BaseInit
Cap == 100000

Bad(rs) == {x \in DOMAIN rs : ~rs[x]}
Merge(bad) == [x \in {"once", "submitted", "bounded", "oldest_go", "nothing_lost", "newest_stay", "thread_order", "thread_gaps", "real_time", "comparable", "in_order"} |-> x \notin bad]
SchedEv ==
  /\ ev.e = "sched"
  /\ LET N == DOMAIN ev.exports
         one == UNION {Bad(T!OneExport(ev.exports[k], ev.sub, Cap, ev.pre)) : k \in N}
         sane == \A k \in N : T!RunSize(ev.exports[k].runs) <= Cap + 1000
         two == IF one # {} THEN {} ELSE UNION {UNION {Bad(T!TwoExports(ev.exports[j], ev.exports[k])) : k \in N \ {j}} : j \in N}
     IN Consume(Failed("C20", [well_formed |-> ev.ok]) \cup (IF ev.ok /\ sane THEN Failed("C20", Merge(one \cup two)) ELSE {}) \cup Failed("C20", [race |-> ev.races = 0, size |-> sane]),
                {"sched"} \cup Opt(ev.scheduled, "scheduled") \cup Opt(ev.pre > 0, "preloaded") \cup Opt(\E k \in N : T!RunSize(ev.exports[k].runs) = Cap, "full")
                \cup Opt(\E k \in N : ev.exports[k].runs = <<>>, "empty") \cup Opt(\E j, k \in N : j # k /\ ev.exports[j].call < ev.exports[k].call /\ ev.exports[k].call < ev.exports[j].ret, "overlap")
                \cup Opt(\E k \in N : \E t \in DOMAIN ev.sub : \E i \in DOMAIN ev.sub[t] : ev.exports[k].call < ev.sub[t][i].call /\ ev.sub[t][i].call < ev.exports[k].ret, "submit_during_export"))

(* per[t+1]: the events of thread t as runs; lo, hi: events certainly submitted before, and at most begun after, the export *)
BulkOne(e) ==
  LET N == DOMAIN e.per
      sizes == [t \in N |-> T!RunSize(e.per[t])]
      total == LET F[k \in 0..Len(sizes)] == IF k = 0 THEN 0 ELSE F[k-1] + sizes[k] IN F[Len(sizes)]
      some == {t \in N : e.per[t] # <<>>}
      low == LET F[k \in 0..Len(e.lo)] == IF k = 0 THEN 0 ELSE F[k-1] + e.lo[k] IN F[Len(e.lo)]
  IN [ bulk_no_gaps |-> \A t \in some : Len(e.per[t]) = 1,
       bulk_all_known |-> total = e.size,
       bulk_bounded |-> total <= Cap,
       bulk_complete |-> total >= (IF low < Cap THEN low ELSE Cap),
       bulk_oldest_go |-> \A t \in some : total = Cap \/ e.per[t][1].a = 1,
       bulk_newest_stay |-> \A t \in N : IF t \in some THEN e.lo[t] <= e.per[t][1].b /\ e.per[t][1].b <= e.hi[t] ELSE e.lo[t] = 0 \/ total = Cap ]
BulkEv ==
  /\ ev.e = "bulk"
  /\ LET bad == UNION {Bad(BulkOne(ev.exports[k])) : k \in DOMAIN ev.exports} IN
     Consume(Failed("C20", [well_formed |-> ev.ok, race |-> ev.races = 0])
             \cup (IF ev.ok THEN Failed("C20", [x \in {"bulk_no_gaps", "bulk_all_known", "bulk_bounded", "bulk_complete", "bulk_oldest_go", "bulk_newest_stay"} |-> x \notin bad]) ELSE {}),
             {"bulk"} \cup Opt(\E k \in DOMAIN ev.exports : ev.exports[k].size = Cap, "bulk_full") \cup Opt(\E k \in DOMAIN ev.exports : ev.exports[k].size = 0, "bulk_empty"))

Micro(ns, us) == NLt(NAbs(NSub(NDiv(ns, "1000"), us)), "1")
FieldsEv ==
  /\ ev.e = "fields"
  /\ Consume(Failed("C20", [well_formed |-> ev.ok, repeatable |-> ev.again])
             \cup (IF ~ev.ok THEN {} ELSE Failed("C20",
               [count |-> Len(ev.got) = Len(ev.want)]) \cup (IF Len(ev.got) # Len(ev.want) THEN {} ELSE Failed("C20",
               [name     |-> \A k \in DOMAIN ev.want : ev.got[k].name = ev.want[k].name,
                stamp    |-> \A k \in DOMAIN ev.want : NEq(ev.got[k].ts, ev.want[k].ts),
                ids      |-> \A k \in DOMAIN ev.want : NEq(ev.got[k].pid, ev.want[k].pid) /\ NEq(ev.got[k].tid, ev.want[k].tid),
                duration |-> \A k \in DOMAIN ev.want : Micro(ev.want[k].dur, ev.got[k].dur),
                complete_event |-> \A k \in DOMAIN ev.want : ev.got[k].ph = "X"]))),
             {"fields"})

ScopesEv ==
  /\ ev.e = "scopes"
  /\ Consume(Failed("C20", [well_formed |-> ev.ok, race |-> ev.races = 0])
             \cup (IF ~ev.ok THEN {} ELSE Failed("C20",
               [scope_once |-> \A k \in DOMAIN ev.progs : S!Run(S!Start, ev.progs[k].toks).out = ev.progs[k].got,
                scope_stamp |-> \A k \in DOMAIN ev.times : ev.times[k].ts_lo <= ev.times[k].ts /\ ev.times[k].ts <= ev.times[k].ts_hi,
                scope_duration |-> \A k \in DOMAIN ev.times : ev.times[k].dur_lo <= ev.times[k].dur /\ ev.times[k].dur <= ev.times[k].dur_hi,
                scope_ids |-> \A k \in DOMAIN ev.times : ev.times[k].own_tid /\ ev.times[k].own_pid,
                macros |-> ev.macros = <<"traced_function", "named_scope", "traced_function">>, stray |-> ev.stray = <<>>])),
             {"scopes"} \cup Opt(ev.threads > 1, "scope_threads")
             \cup UNION {LET ts == {ev.progs[k].toks[i] : i \in DOMAIN ev.progs[k].toks} IN Opt("throw" \in ts, "scope_throw") \cup Opt("throw" \in ts /\ "guard" \in ts, "scope_unwind") : k \in DOMAIN ev.progs})
End == ev.e = "end" /\ Consume({}, {})
Next == More /\ (SchedEv \/ BulkEv \/ FieldsEv \/ ScopesEv \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
