------------------------------- MODULE Tracing -------------------------------
(***************************************************************************)
(* The trace collector: a bounded queue of events shared by threads.       *)
(*                                                                         *)
(* An event is <<thread, k>>: the k-th event of that thread.  Calls are    *)
(* "submit" and "export".  Inside a call the thread takes the lock, does   *)
(* its work in several steps, and releases it, so other threads may be     *)
(* interleaved anywhere.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads,   \* submitting and exporting threads
          Program,   \* Program[t]: sequence of "submit" / "export"
          Cap,       \* bound of the queue
          Preload,   \* events held before the threads start (of thread 0)
          Locking    \* FALSE: exports do not take the lock (the defect that was repaired)

VARIABLES queue, owner, pc, at, made, order, exports, buffer
(* queue: events held;  owner: holder of the lock (0: free);  at[t]: index of t's current call;                        *)
(* pc[t]: "idle" | "want" | "in1" | "in2" | "out";  made[t]: number of submissions started;                            *)
(* order: ghost, all events in the order they were appended;  exports: results;  buffer[t]: what an export copied      *)
cvars == <<queue, owner, pc, at, made, order, exports, buffer>>

Last(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))
CInit == /\ queue = Last([k \in 1..Preload |-> <<0, k>>], Cap) /\ order = [k \in 1..Preload |-> <<0, k>>]
         /\ owner = 0 /\ pc = [t \in Threads |-> "idle"] /\ at = [t \in Threads |-> 0] /\ made = [t \in Threads |-> 0]
         /\ exports = {} /\ buffer = [t \in Threads |-> <<>>]
Op(t) == Program[t][at[t]]
Begin(t) == /\ pc[t] = "idle" /\ at[t] < Len(Program[t])
            /\ at' = [at EXCEPT ![t] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "want"]
            /\ made' = [made EXCEPT ![t] = IF Program[t][at[t] + 1] = "submit" THEN @ + 1 ELSE @]
            /\ UNCHANGED <<queue, owner, order, exports, buffer>>
Free(t) == owner = 0 \/ (Op(t) = "export" /\ ~Locking)
Enter(t) == /\ pc[t] = "want" /\ Free(t)
            /\ owner' = (IF Op(t) = "export" /\ ~Locking THEN owner ELSE t) /\ pc' = [pc EXCEPT ![t] = "in1"]
            /\ UNCHANGED <<queue, at, made, order, exports, buffer>>
(* A blocked attempt changes nothing; it is a step of the schedule. *)
Blocked(t) == pc[t] = "want" /\ ~Free(t) /\ UNCHANGED cvars
Work1(t) == /\ pc[t] = "in1" /\ pc' = [pc EXCEPT ![t] = "in2"]
            /\ IF Op(t) = "submit" THEN /\ queue' = Append(queue, <<t, made[t]>>) /\ order' = Append(order, <<t, made[t]>>) /\ UNCHANGED buffer
               ELSE /\ buffer' = [buffer EXCEPT ![t] = SubSeq(queue, 1, Len(queue) \div 2)] /\ UNCHANGED <<queue, order>>
            /\ UNCHANGED <<owner, at, made, exports>>
Work2(t) == /\ pc[t] = "in2" /\ pc' = [pc EXCEPT ![t] = "out"]
            /\ IF Op(t) = "submit" THEN queue' = (IF Len(queue) > Cap THEN Tail(queue) ELSE queue) /\ UNCHANGED buffer
               ELSE buffer' = [buffer EXCEPT ![t] = @ \o SubSeq(queue, Len(@) + 1, Len(queue))] /\ UNCHANGED queue
            /\ UNCHANGED <<owner, at, made, order, exports>>
Leave(t) == /\ pc[t] = "out" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ owner' = (IF owner = t THEN 0 ELSE owner)
            /\ exports' = (IF Op(t) = "export" THEN exports \cup {[t |-> t, n |-> at[t], content |-> buffer[t]]} ELSE exports)
            /\ UNCHANGED <<queue, at, made, order, buffer>>
Step(t) == Begin(t) \/ Enter(t) \/ Work1(t) \/ Work2(t) \/ Leave(t)

(* What the collector guarantees. *)
Bounded == owner = 0 => queue = Last(order, Cap)
States == {Last(SubSeq(order, 1, n), Cap) : n \in 0..Len(order)}
ExportsAreStates == \A e \in exports : e.content \in States
OncePerEvent == \A i, j \in DOMAIN order : i # j => order[i] # order[j]
ThreadOrder == \A i, j \in DOMAIN order : (i < j /\ order[i][1] = order[j][1]) => order[i][2] < order[j][2]

(***************************************************************************)
(* The same, judged from outside.  A submission has the times of its call  *)
(* and its return; an export has times and a content, given as runs        *)
(* [t, a, b]: the events a..b of thread t in a row.  Thread 0 submitted    *)
(* its events before everything else.                                      *)
(***************************************************************************)
RunSize(runs) == LET S[k \in 0..Len(runs)] == IF k = 0 THEN 0 ELSE S[k-1] + (runs[k].b - runs[k].a + 1) IN S[Len(runs)]
Flatten(runs) ==  \* events of the threads 1.. in order
  LET S[k \in 0..Len(runs)] == IF k = 0 THEN <<>> ELSE IF runs[k].t = 0 THEN S[k-1] ELSE S[k-1] \o [j \in 1..(runs[k].b - runs[k].a + 1) |-> <<runs[k].t, runs[k].a + j - 1>>] IN S[Len(runs)]
IsPrefix(p, q) == Len(p) <= Len(q) /\ \A k \in DOMAIN p : p[k] = q[k]

(* sub[t][k] = [call, ret] of submission k (ret = 0: not returned); cap, pre: bound and preloaded events *)
OneExport(e, sub, cap, pre) ==
  LET size == RunSize(e.runs) evs == Flatten(e.runs)
      zero == {k \in DOMAIN e.runs : e.runs[k].t = 0}
      before == {<<t, k>> \in UNION {{<<t, k>> : k \in DOMAIN sub[t]} : t \in DOMAIN sub} : sub[t][k].ret > 0 /\ sub[t][k].ret < e.call}
      here == {evs[k] : k \in DOMAIN evs}
  IN
  [ once        |-> Cardinality(here) = Len(evs) /\ Cardinality(zero) <= 1,
    submitted   |-> \A v \in here : v[1] \in DOMAIN sub /\ v[2] \in DOMAIN sub[v[1]] /\ sub[v[1]][v[2]].call < e.ret,
    bounded     |-> size <= cap,
    (* preloaded events come first, without gaps, and up to the last one *)
    oldest_go   |-> IF zero = {} THEN pre = 0 \/ size = cap ELSE zero = {1} /\ e.runs[1].b = pre /\ (e.runs[1].a = 1 \/ size = cap),
    nothing_lost |-> size = cap \/ before \subseteq here,
    (* events may only be missing because newer ones fill the queue *)
    newest_stay |-> \A v \in before : v \in here \/ (zero = {} /\ size = cap),
    thread_order |-> \A i \in 1..(Len(evs) - 1) : \A j \in (i + 1)..Len(evs) : evs[i][1] = evs[j][1] => evs[i][2] < evs[j][2],
    thread_gaps  |-> \A t \in DOMAIN sub : LET mine == {v[2] : v \in {w \in here : w[1] = t}} IN mine = {} \/ \E a \in mine : (a = 1 \/ size = cap) /\ mine = a..(a + Cardinality(mine) - 1),
    real_time    |-> \A i \in 1..(Len(evs) - 1) : \A j \in (i + 1)..Len(evs) :
                        LET x == sub[evs[i][1]][evs[i][2]] y == sub[evs[j][1]][evs[j][2]] IN ~(y.ret > 0 /\ y.ret < x.call) ]
(* Two exports show states of one history: the later state extends the earlier one at the end and drops from the front. *)
Extends(e, f) ==
  LET p == Flatten(e.runs) q == Flatten(f.runs) IN
  \E d \in 0..Len(p) : (d = 0 \/ RunSize(f.runs) >= RunSize(e.runs)) /\ IsPrefix(SubSeq(p, d + 1, Len(p)), q)
                       /\ (d > 0 => \A k \in 1..d : ~ \E j \in DOMAIN q : q[j] = p[k])
TwoExports(e, f) ==
  [ comparable |-> Extends(e, f) \/ Extends(f, e),
    in_order   |-> (e.ret < f.call) => Extends(e, f) ]
=============================================================================
