----------------------------- MODULE Tracing_MC -----------------------------
EXTENDS Tracing, TLC, Json
VARIABLE sched
vars == <<queue, owner, pc, at, made, order, exports, buffer, sched>>
(* Times for the outside view: positions in the schedule; calls begin at Begin and end at Leave. *)
VARIABLES stamp
allvars == <<vars, stamp>>
Init == CInit /\ sched = <<>> /\ stamp = <<>>
Mark(t) == CASE pc[t] = "idle" -> Append(stamp, [t |-> t, what |-> "call", op |-> Program[t][at[t] + 1], n |-> IF Program[t][at[t] + 1] = "submit" THEN made[t] + 1 ELSE at[t] + 1])
             [] pc[t] = "out" -> Append(stamp, [t |-> t, what |-> "ret", op |-> Op(t), n |-> IF Op(t) = "submit" THEN made[t] ELSE at[t]])
             [] OTHER -> stamp
Next == \E t \in Threads : (Step(t) /\ sched' = Append(sched, t) /\ stamp' = Mark(t)) \/ (Blocked(t) /\ sched' = Append(sched, t) /\ sched # <<>> /\ sched[Len(sched)] # t /\ UNCHANGED stamp)
Spec == Init /\ [][Next]_allvars
(* schedules only differ in what happens: the state graph of the collector itself is small *)
View == <<queue, owner, pc, at, made, order, exports, buffer, stamp>>
BaseView == <<queue, owner, pc, at, made, order, exports, buffer>>

Done == \A t \in Threads : pc[t] = "idle" /\ at[t] = Len(Program[t])
(* The outside view accepts every behaviour of the collector. *)
SetMax0(s) == IF s = {} THEN 0 ELSE CHOOSE x \in s : \A y \in s : x >= y
TimeOf(t, what, op, n) == LET s == {k \in DOMAIN stamp : stamp[k].t = t /\ stamp[k].what = what /\ stamp[k].op = op /\ stamp[k].n = n} IN SetMax0(s)
Sub == [t \in Threads |-> [k \in 1..made[t] |-> [call |-> TimeOf(t, "call", "submit", k), ret |-> TimeOf(t, "ret", "submit", k)]]]
RunsOf(c) == LET z == SelectSeq(c, LAMBDA v : v[1] = 0) o == SelectSeq(c, LAMBDA v : v[1] # 0) IN
  (IF z = <<>> THEN <<>> ELSE <<[t |-> 0, a |-> z[1][2], b |-> z[Len(z)][2]]>>) \o [k \in DOMAIN o |-> [t |-> o[k][1], a |-> o[k][2], b |-> o[k][2]]]
Outer(e) == [call |-> TimeOf(e.t, "call", "export", e.n), ret |-> TimeOf(e.t, "ret", "export", e.n), runs |-> RunsOf(e.content)]
Good(r) == \A x \in DOMAIN r : r[x]
OutsideView == Done => /\ \A e \in exports : Good(OneExport(Outer(e), Sub, Cap, Preload))
                       /\ \A e, f \in exports : e # f => Good(TwoExports(Outer(e), Outer(f)))
Dump == Done => PrintT("VERIF-SCHED " \o ToJson([prog |-> Program, sched |-> sched]))

P2 == 1 :> <<"submit">> @@ 2 :> <<"export">>
P3 == 1 :> <<"submit">> @@ 2 :> <<"submit">> @@ 3 :> <<"export">>
P4 == 1 :> <<"submit", "submit">> @@ 2 :> <<"submit", "export">>
P5 == 1 :> <<"submit", "submit">> @@ 2 :> <<"submit", "submit">> @@ 3 :> <<"export", "export">>
P6 == 1 :> <<"submit", "submit", "submit">> @@ 2 :> <<"submit", "export", "submit">> @@ 3 :> <<"export", "submit">>
=============================================================================
