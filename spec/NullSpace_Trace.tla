--------------------------- MODULE NullSpace_Trace --------------------------
(* Recorded histories of QPNullSpaceSolver against NullSpace. *)
EXTENDS NullSpace, TraceBase, TLC

VARIABLE count            \* problems solved so far on this solver object
vars == <<l, viol, hits, count>>
Init == BaseInit /\ count = 0

(* Definite, but a shift by a millionth would change that; independent rows whose Gram matrix is nearly singular. *)
Flat(p) == LET Z == Directions(p) IN Len(Z) > 0 /\ ~PosDef(MCombine(Reduced(Z, SymLow(p.G)), "-1e-6" \otimes Scale(p), Gram(p, Z)))
NearlyDependent(A) == LET B == Mat([i \in DOMAIN A |-> [j \in DOMAIN A |-> VDot(A[i], A[j])]]) IN ~PosDef(MCombine(B, "-1e-7" \otimes MNormInf(B), Identity(Len(A))))

Eigen(p) == [eigenvalues |-> ev.eig = <<>> \/ EigOK(SymLow(p.G), ev.eig)]
Solve ==
  /\ ev.e = "solve"
  /\ LET p == [n |-> ev.n, G |-> Mat(ev.G), c |-> ev.c, A |-> Mat(ev.A), b |-> ev.b]
         k == Len(p.A)
         rank == Rank(p.A)
         consistent == Consistent(p.A, VScale("-1", p.b))
         vs == Verdicts(p)
     IN  IF ~consistent THEN Consume(Failed("C06", Eigen(p)), {"inconsistent"})      \* nothing is claimed of the solution
         ELSE Consume(Failed("C06", [verdict |-> ev.term \in vs] @@ (IF ev.term = "SUCCESS" /\ Definite(p) THEN SolutionRules(p, ev.x) ELSE [none |-> TRUE])) \cup Failed("C06", Eigen(p)),
                      {"verdict_" \o ev.term} \cup Opt(Cardinality(vs) = 1, "decided") \cup Opt(rank < k, "redundant") \cup Opt(rank = p.n, "determined")
                        \cup Opt(k > p.n, "more_rows") \cup Opt(count > 0, "reused") \cup Opt(rank = 0, "no_real_constraint")
                        \cup Opt(ev.term = "SUCCESS" /\ ~PosDef(SymLow(p.G)), "indefinite_cost")
                        \cup Opt(Cardinality(vs) = 1 /\ ev.term = "SUCCESS" /\ Scale(p) \succ "0" /\ Flat(p), "flat_direction") \cup Opt(rank = k /\ k > 1 /\ NearlyDependent(p.A), "near_dependent")
                        \cup Opt(ev.eig # <<>> /\ NAbs(ev.eig[1]) # ev.eig[3] /\ ~(ev.eig[3] \preceq ("1e-9" \otimes Scale(p))), "eigen_indefinite")
                        \cup Opt(\E i, j \in 1..p.n : i < j /\ ~NEq(p.G[i][j], p.G[j][i]), "upper_garbage"))
  /\ count' = count + 1

End == ev.e = "end" /\ Consume({}, {}) /\ count' = 0
Next == More /\ (Solve \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
