--------------------------- MODULE Independent_MC ---------------------------
(* All schedules of a few threads, and all nestings of jobs inside calls to user functions. *)
EXTENDS Independent, TLC, Json
CONSTANTS Programs,    \* set of sequences of kinds: the job with which each thread starts
          NestKinds,   \* kinds of jobs started inside calls
          MaxNest, MaxDepth, MaxSwitch

Two == {<<a, b>> : a \in {"solve"}, b \in {"solve", "eval"}}
Three == {<<"solve", "eval", "eval">>}
One == {<<"solve">>, <<"eval">>}
All == {"solve", "eval", "qp"}
None == {}

(* A frame: job number, its kind, the next step.  mem: who wrote each slot last. *)
VARIABLES stacks, mem, njobs, nests, stale, word, last, switches
vars == <<stacks, mem, njobs, nests, stale, word, last, switches>>

Init == \E p \in Programs :
  /\ stacks = [t \in DOMAIN p |-> <<[job |-> t, kind |-> p[t], pc |-> 1]>>]
  /\ mem = [x \in {} |-> 0] /\ njobs = Len(p) /\ nests = 0 /\ stale = FALSE /\ word = <<>> /\ last = 0 /\ switches = 0
Top(t) == stacks[t][Len(stacks[t])]
At(t) == Steps(Top(t).kind)[Top(t).pc]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Written(job, thread, slots) == [x \in (DOMAIN mem) \cup {<<q, Place(q, job, thread)>> : q \in slots} |-> IF x[1] \in slots /\ x[2] = Place(x[1], job, thread) THEN job ELSE mem[x]]
Free(t) == IF t = last \/ last = 0 THEN TRUE ELSE stacks[last] = <<>>
Fits(t) == IF Free(t) THEN TRUE ELSE switches < MaxSwitch
(* The step of the job on top of a thread's stack, up to its next call or its end. *)
Step(t) ==
  /\ stacks[t] # <<>> /\ Fits(t)
  /\ LET f == Top(t) st == At(t) place(q) == <<q, Place(q, f.job, t)>> IN
     /\ stale' = (stale \/ \E q \in st.reads : place(q) \notin DOMAIN mem \/ mem[place(q)] # f.job)
     /\ mem' = Written(f.job, t, st.writes)
     /\ stacks' = [stacks EXCEPT ![t] = IF st.call = "end" THEN Pop(@) ELSE Append(Pop(@), [f EXCEPT !.pc = @ + 1])]
     /\ word' = Append(word, [t |-> t, op |-> "step", kind |-> st.call])
     /\ switches' = IF Free(t) THEN switches ELSE switches + 1
  /\ last' = t /\ UNCHANGED <<njobs, nests>>
(* Inside the call a step ended with, another job starts. *)
Nest(t, kind) ==
  /\ stacks[t] # <<>> /\ Len(stacks[t]) <= MaxDepth /\ nests < MaxNest /\ last = t
  /\ (IF stacks[t] = <<>> THEN FALSE ELSE Top(t).pc > 1)
  /\ word[Len(word)].op = "step"
  /\ njobs' = njobs + 1 /\ nests' = nests + 1
  /\ stacks' = [stacks EXCEPT ![t] = Append(@, [job |-> njobs + 1, kind |-> kind, pc |-> 1])]
  /\ word' = Append(word, [t |-> t, op |-> "nest", kind |-> kind])
  /\ UNCHANGED <<mem, stale, last, switches>>
Next == \E t \in DOMAIN stacks : Step(t) \/ \E k \in NestKinds : Nest(t, k)
Spec == Init /\ [][Next]_vars

Independence == ~stale
Done == \A t \in DOMAIN stacks : stacks[t] = <<>>
Mixtures == Done => PrintT("VERIF-MIX " \o ToJson(word))
=============================================================================
