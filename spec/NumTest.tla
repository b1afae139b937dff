------------------------------ MODULE NumTest ------------------------------
(* The Java overrides satisfy the defining equations of Num.tla, on a grid. *)
EXTENDS Num, Integers, Sequences, TLC
VARIABLES done
D == {"0", "1", "-1", "3/2", "-2/3", "0x1.8p+1"}
V2 == {<<a, b>> : a \in D, b \in D}
RefSum(u) == LET S[k \in 0..Len(u)] == IF k = 0 THEN "0" ELSE NAdd(S[k-1], u[k]) IN S[Len(u)]
RefDot(u, v) == RefSum([i \in DOMAIN u |-> NMul(u[i], v[i])])
Det(M) == NSub(NMul(M[1][1], M[2][2]), NMul(M[1][2], M[2][1]))
Scalars == /\ \A a \in D, b \in D : /\ NEq(NSub(NAdd(a, b), b), a)
                                    /\ NEq(NMul(a, b), NMul(b, a))
                                    /\ (~NEq(b, "0") => NEq(NMul(NDiv(a, b), b), a))
                                    /\ NLe(a, b) = ~NLt(b, a)
                                    /\ NEq(NMax(a, b), IF NLe(a, b) THEN b ELSE a)
                                    /\ NEq(NAbs(a), IF NLt(a, "0") THEN NNeg(a) ELSE a)
           /\ \A a \in D : NLt(NAbs(NSub(NMul(NSqrt(NAbs(a)), NSqrt(NAbs(a))), NAbs(a))), "1e-35")
           /\ NEq("0x1.8p+1", "3") /\ NEq("-0x1p-3", "-1/8") /\ NEq("1e-3", "1/1000") /\ NEq("0x1.0000000000001p+0", "4503599627370497/4503599627370496")
           /\ NEq(NF64("1/3"), "0x1.5555555555555p-2") /\ NEq(NF64("0.1"), "0x1.999999999999ap-4") /\ NEq(NF64("4503599627370497/4503599627370496"), "0x1.0000000000001p+0")
           /\ ~NLe("nan", "0") /\ ~NLe("0", "nan") /\ NLt("1", "inf") /\ NLt("-inf", "-5") /\ NIsNaN(NSub("inf", "inf"))
Vectors == \A u \in V2, v \in V2 :
             /\ NEq(VDot(u, v), RefDot(u, v)) /\ VEq(VAdd(u, v), <<NAdd(u[1], v[1]), NAdd(u[2], v[2])>>)
             /\ VEq(VSub(u, v), <<NSub(u[1], v[1]), NSub(u[2], v[2])>>) /\ NEq(VNorm1(u), NAdd(NAbs(u[1]), NAbs(u[2])))
             /\ NEq(VNormInf(u), NMax(NAbs(u[1]), NAbs(u[2]))) /\ VEq(MVec(<<u, v>>, v), <<RefDot(u, v), RefDot(v, v)>>)
             /\ VEq(MTVec(<<u, v>>, v, 2), <<RefDot(<<u[1], v[1]>>, v), RefDot(<<u[2], v[2]>>, v)>>)
             /\ LET M == <<u, v>> b == <<"1", "2">> IN
                  /\ Regular(M) = ~NEq(Det(M), "0")
                  /\ (Regular(M) => VEq(MVec(M, LinSolve(M, b)), b))
                  /\ (~Regular(M) => LinSolve(M, b) = <<>>)
                  /\ (Rank(M) = 2) = Regular(M)
                  /\ (Consistent(M, b) => VEq(MVec(M, Particular(M, b, 2)), b))
                  /\ \A z \in {NullBasis(M, 2)[i] : i \in DOMAIN NullBasis(M, 2)} : VEq(MVec(M, z), <<"0", "0">>)
                  /\ Len(NullBasis(M, 2)) = 2 - Rank(M)
             /\ LET S == SymLow(<<u, v>>) IN
                  /\ NEq(S[1][2], S[2][1]) /\ NEq(S[1][2], v[1])
                  /\ PosDef(S) = (NLt("0", S[1][1]) /\ NLt("0", Det(S)))
                  /\ (Inertia(S)[1] = 1 /\ Inertia(S)[3] = 1) = NLt(Det(S), "0")
Init == done = FALSE
Next == ~done /\ Assert(Scalars, "scalars") /\ Assert(Vectors, "vectors") /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
