------------------------------ MODULE Residual -----------------------------
(***************************************************************************)
(* Residual blocks and their assembly.                                     *)
(*                                                                         *)
(* A residual is [rows, idx, c, A, Q]: it selects the parameters at idx    *)
(* (1-based, distinct, any order), evaluates  e = c + A p + Q (p o p)  on  *)
(* them and has the derivative  A + 2 Q diag(p).  The caller's memory is   *)
(* [H, g, J, e]: a linear system (H, g) that is accumulated into, and a    *)
(* tall Jacobian and error vector of which blocks of rows are written.     *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets

Select(r, x) == [i \in DOMAIN r.idx |-> x[r.idx[i]]]
ErrorOf(r, x) == LET p == Select(r, x) IN VAdd(VAdd(r.c, MVec(r.A, p)), MVec(r.Q, VHad(p, p)))
JacOf(r, x) == LET p == Select(r, x) IN
  Mat([i \in 1..r.rows |-> [j \in DOMAIN r.idx |-> NAdd(r.A[i][j], NMul("2", NMul(r.Q[i][j], p[j])))]])

LocalOf(r, v) == CHOOSE j \in DOMAIN r.idx : r.idx[j] = v
Selected(r) == {r.idx[j] : j \in DOMAIN r.idx}
Col(M, j) == [i \in DOMAIN M |-> M[i][j]]

HalfSq(e) == NDiv(VDot(e, e), "2")

(* Accumulation: Gram matrix into the lower triangle, J'e into the vector; nothing else is touched. *)
HessianInto(r, x, mem) ==
  LET J == JacOf(r, x) e == Vec(ErrorOf(r, x)) S == Selected(r) IN
  [mem EXCEPT !.H = [a \in DOMAIN @ |-> [b \in DOMAIN @ |->
                       IF b <= a /\ a \in S /\ b \in S THEN NAdd(@[a][b], VDot(Col(J, LocalOf(r, a)), Col(J, LocalOf(r, b)))) ELSE @[a][b]]],
              !.g = [a \in DOMAIN @ |-> IF a \in S THEN NAdd(@[a], VDot(Col(J, LocalOf(r, a)), e)) ELSE @[a]]]

(* Rows off+1 .. off+rows: the selected columns and the error are set. *)
JacobianInto(r, x, off, mem) ==
  LET J == JacOf(r, x) e == Vec(ErrorOf(r, x)) S == Selected(r) In(i) == i > off /\ i <= off + r.rows IN
  [mem EXCEPT !.J = [i \in DOMAIN @ |-> [b \in DOMAIN @[i] |-> IF In(i) /\ b \in S THEN J[i - off][LocalOf(r, b)] ELSE @[i][b]]],
              !.e = [i \in DOMAIN @ |-> IF In(i) THEN e[i - off] ELSE @[i]]]

ErrorInto(r, x, off, mem) ==
  LET e == Vec(ErrorOf(r, x)) In(i) == i > off /\ i <= off + r.rows IN
  [mem EXCEPT !.e = [i \in DOMAIN @ |-> IF In(i) THEN e[i - off] ELSE @[i]]]

Apply(op, r, x, mem) ==
  CASE op.kind = "hessian" -> HessianInto(r, x, mem)
    [] op.kind = "jacobian" -> JacobianInto(r, x, op.off, mem)
    [] op.kind = "error" -> ErrorInto(r, x, op.off, mem)
    [] op.kind = "quadratic" -> mem
Returned(op, r, x) == IF op.kind \in {"hessian", "quadratic"} THEN HalfSq(ErrorOf(r, x)) ELSE "0"
=============================================================================
