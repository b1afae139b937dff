--------------------------- MODULE Residual_Trace ---------------------------
(* Recorded assembly operations against Residual (exact: the data is chosen so that nothing is rounded). *)
EXTENDS Residual, TraceBase, TLC

VARIABLES x, rs, mem
vars == <<l, viol, hits, x, rs, mem>>
Init == BaseInit /\ x = <<>> /\ rs = <<>> /\ mem = [H |-> <<>>]

MemOf(e) == [H |-> e.H, g |-> e.g, J |-> e.J, e |-> e.er]
MEqual(A, B) == Len(A) = Len(B) /\ \A i \in DOMAIN A : VEq(A[i], B[i])

Start ==
  /\ ev.e = "start"
  /\ x' = ev.x /\ rs' = ev.rs /\ mem' = MemOf(ev)
  /\ Consume(Failed("C15", [dimension |-> \A i \in DOMAIN ev.rs : ev.dims[i] = ev.rs[i].rows]),
             {"scenario"} \cup UNION {Opt(r.dynamic, "dynamic") \cup Opt(~r.dynamic, "static") \cup Opt(\E i, j \in DOMAIN r.idx : i < j /\ r.idx[i] > r.idx[j], "out_of_order")
                                      \cup Opt(Len(r.idx) < Len(ev.x), "sparse") : r \in {ev.rs[i] : i \in DOMAIN ev.rs}})

Op ==
  /\ ev.e = "op"
  /\ LET r == rs[ev.res] want == Apply([kind |-> ev.kind, off |-> ev.off], r, x, mem) got == MemOf(ev)
         p == Select(r, x) needJ == ev.kind \in {"hessian", "jacobian"}
     IN  /\ Consume(Failed("C15",
              [ no_exception |-> ev.what = "none",
                lower_triangle |-> \A i \in DOMAIN want.H : \A j \in 1..i : SameNum(want.H[i][j], got.H[i][j]),
                upper_triangle |-> \A i \in DOMAIN want.H : \A j \in DOMAIN want.H : j > i => SameNum(want.H[i][j], got.H[i][j]),
                vector |-> VEq(want.g, got.g), jacobian |-> MEqual(want.J, got.J), error |-> VEq(want.e, got.e),
                returned |-> NEq(ev.ret, Returned([kind |-> ev.kind], r, x)),
                called |-> Len(ev.calls) >= 1,
                parameters |-> \A i \in DOMAIN ev.calls : VEq(ev.calls[i].p, p),
                derivative_request |-> IF needJ THEN \E i \in DOMAIN ev.calls : ev.calls[i].jac ELSE \A i \in DOMAIN ev.calls : ~ev.calls[i].jac,
                derivative_shape |-> \A i \in DOMAIN ev.calls : ev.calls[i].jac => ev.calls[i].jr = r.rows /\ ev.calls[i].jc = Len(r.idx) ]),
              {"op_" \o ev.kind} \cup Opt(ev.kind = "hessian" /\ (\A i \in 1..r.rows : NEq(Vec(ErrorOf(r, x))[i], "0")), "zero_error")
                                       \cup Opt(ev.kind = "hessian" /\ (\E j \in DOMAIN r.idx : \A i \in 1..r.rows : NEq(JacOf(r, x)[i][j], "0")), "zero_column"))
         /\ mem' = got
  /\ UNCHANGED <<x, rs>>

End == ev.e = "end" /\ Consume({}, {}) /\ UNCHANGED <<x, rs, mem>>
Next == More /\ (Start \/ Op \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
