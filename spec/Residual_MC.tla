---------------------------- MODULE Residual_MC ----------------------------
(***************************************************************************)
(* All index lists over N parameters for two residual blocks, and all      *)
(* sequences of assembly operations on one system.  Checked against the    *)
(* dense definition: with every Jacobian embedded in N columns, the lower  *)
(* triangle accumulates J'J, the vector J'e, whatever the order.           *)
(***************************************************************************)
EXTENDS Residual, TLC, Json

CONSTANTS N, RowCounts, Dump, Second, Kinds

Injective == UNION {{s \in [1..k -> 1..N] : \A i, j \in 1..k : i # j => s[i] # s[j]} : k \in 1..N}
(* Data: multiples of 2^-14, so that the sums below are exact in double but not in single precision. *)
D(a, b) == NStr(NAdd(ToString(((a * 17 + b * 5 + a * b) % 9) - 4), NMul("0x1p-14", ToString((a * 7 + b * 13) % 31))))
X == [i \in 1..N |-> NStr(NDiv(ToString(((i * 17) % 13) - 6), "4"))]
Res(id, idx, rows) == [rows |-> rows, idx |-> idx, c |-> [i \in 1..rows |-> D(i, id)], A |-> [i \in 1..rows |-> [j \in DOMAIN idx |-> D(i + 3 * id, j)]],
                       Q |-> [i \in 1..rows |-> [j \in DOMAIN idx |-> ToString((i + j + id) % 3)]]]
Tall == 7
Mem0 == [H |-> [a \in 1..N |-> [b \in 1..N |-> D(a + 20, b)]], g |-> [a \in 1..N |-> D(a, 40)],
         J |-> [i \in 1..Tall |-> [b \in 1..N |-> D(i + 9, b + 5)]], e |-> [i \in 1..Tall |-> D(i, 60)]]
MemStr(m) == [H |-> [a \in DOMAIN m.H |-> VStr(m.H[a])], g |-> VStr(m.g), J |-> [a \in DOMAIN m.J |-> VStr(m.J[a])], e |-> VStr(m.e)]

VARIABLES rs, mem, done
vars == <<rs, mem, done>>
Init == /\ \E i1 \in Injective, n1 \in RowCounts, i2 \in (IF Second THEN Injective ELSE {<<1>>}), n2 \in (IF Second THEN RowCounts ELSE {1}) :
              rs = <<Res(1, i1, n1), Res(2, i2, n2)>>
        /\ mem = Mem0 /\ done = <<>>

Step ==
  /\ Len(done) < (IF Second THEN 2 ELSE 1)
  /\ \E k \in Kinds : LET which == Len(done) + 1 op == [kind |-> k, res |-> which, off |-> IF which = 1 THEN 1 ELSE 4] IN
       /\ mem' = MemStr(Apply(op, rs[which], X, mem)) /\ done' = Append(done, op) /\ UNCHANGED rs
       /\ (Dump /\ Len(done') = (IF Second THEN 2 ELSE 1) => PrintT("VERIF-RES " \o ToJson([n |-> N, x |-> X, mem |-> Mem0, rs |-> SubSeq(rs, 1, Len(done')), ops |-> done'])))

Next == Step
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Dense(r) == LET J == JacOf(r, X) IN [i \in 1..r.rows |-> [v \in 1..N |-> IF v \in Selected(r) THEN J[i][LocalOf(r, v)] ELSE "0"]]
Times(k) == Cardinality({i \in DOMAIN done : done[i].kind = "hessian" /\ done[i].res = k})
Total(F(_)) == NAdd(IF Times(1) = 0 THEN "0" ELSE F(rs[1]), IF Times(2) = 0 THEN "0" ELSE F(rs[2]))
NormalEquations == \A a, b \in 1..N :
  NEq(mem.H[a][b], IF b > a THEN Mem0.H[a][b] ELSE NAdd(Mem0.H[a][b], LET F(r) == VDot(Col(Dense(r), a), Col(Dense(r), b)) IN Total(F)))
RightHandSide == \A a \in 1..N : LET F(r) == VDot(Col(Dense(r), a), ErrorOf(r, X)) IN NEq(mem.g[a], NAdd(Mem0.g[a], Total(F)))
Frame == \A i \in 1..Tall : LET w == {k \in DOMAIN done : done[k].kind \in {"jacobian", "error"} /\ i > done[k].off /\ i <= done[k].off + rs[done[k].res].rows} IN
           /\ w = {} => VEq(mem.J[i], Mem0.J[i]) /\ NEq(mem.e[i], Mem0.e[i])
           /\ \A k \in w : NEq(mem.e[i], ErrorOf(rs[done[k].res], X)[i - done[k].off])
           /\ \A k \in w : done[k].kind = "jacobian" => \A v \in 1..N : NEq(mem.J[i][v], IF v \in Selected(rs[done[k].res]) THEN Dense(rs[done[k].res])[i - done[k].off][v] ELSE Mem0.J[i][v])
(* Listing the same parameters in another order, with the columns permuted alike, changes nothing. *)
Reverse(r) == LET n == Len(r.idx) P(M) == [i \in 1..r.rows |-> [j \in 1..n |-> M[i][n + 1 - j]]] IN
  [r EXCEPT !.idx = [j \in 1..n |-> r.idx[n + 1 - j]], !.A = P(@), !.Q = P(@)]
OrderFree == done = <<>> => \A r \in {rs[1], rs[2]} : MemStr(HessianInto(Reverse(r), X, Mem0)) = MemStr(HessianInto(r, X, Mem0))
Commute == done = <<>> => MemStr(HessianInto(rs[1], X, HessianInto(rs[2], X, Mem0))) = MemStr(HessianInto(rs[2], X, HessianInto(rs[1], X, Mem0)))
=============================================================================
