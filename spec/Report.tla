------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What is read from the outputs of a solve: statistics, the text report,  *)
(* and the serialised document.                                            *)
(*                                                                         *)
(* A log is [term, its]; an entry of its is                                *)
(*   [i, mode, lam, f, c, qp, eig, dd, pen, res, steps]                    *)
(* with qp = [kind, term, its, lag]; optional parts are sequences that may *)
(* be empty.  Numbers are strings (module Num).                            *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets

Sum(f(_), q) == LET S[k \in 0..Len(q)] == IF k = 0 THEN 0 ELSE S[k-1] + f(q[k]) IN S[Len(q)]
Flat(q) == LET S[k \in 0..Len(q)] == IF k = 0 THEN <<>> ELSE S[k-1] \o q[k] IN S[Len(q)]
Map(f(_), q) == [k \in DOMAIN q |-> f(q[k])]

(* Statistics. *)
NumQP(log)     == LET one(it) == IF it.qp.kind = "ip" THEN Len(it.qp.its) ELSE 1 IN Sum(one, log.its)
NumTries(log)  == LET one(it) == Len(it.steps) IN Sum(one, log.its)
NumFailed(log) == LET one(it) == IF it.res \in {"SUCCESS", "FIRST_ORDER_SATISFIED"} THEN 0 ELSE 1 IN Sum(one, log.its)

(***************************************************************************)
(* The report: lines of tokens.  A token is a word or a number; a number   *)
(* is shown so that it reads back exactly ("x"), or to a fixed number of   *)
(* decimals ("d"), or is a sum that was rounded ("t", with its terms).     *)
(***************************************************************************)
W(t) == [k |-> "w", v |-> t]
X(v) == [k |-> "x", v |-> v]
D(v, eps) == [k |-> "d", v |-> v, eps |-> eps]
T(f, c, p) == [k |-> "t", v |-> f, c |-> c, p |-> p]
Words(q) == Map(W, q)
MaxOf(q) == [k |-> "m", v |-> q]

InnerLines(t) ==
  << Words(<<"Iteration", "summary", "kkt", "max">>) \o <<MaxOf(t.k0), W("-->"), MaxOf(t.k1), W("mu"), X(t.out[1]), W("a_p"), X(t.out[2]), W("a_d"), X(t.out[3])>> >>
  \o (IF NIsNaN(t.out[6]) THEN <<>> ELSE << Words(<<"Probe", "alphas", "a_p">>) \o <<X(t.out[4]), W("a_d"), X(t.out[5]), W("mu_affine"), X(t.out[6])>> >>)
  \o << Words(<<"KKT", "errors", "L2">>) >>
  \o [k \in 1..4 |-> << W(<<"r_dual", "r_comp", "r_p_eq", "r_p_ineq">>[k]), X(t.k0[k]), W("-->"), X(t.k1[k]) >>]

EntryLines(it, inner) ==
  << <<W("Iteration"), X(it.i), W("state"), W(it.mode), W("lambda"), X(it.lam)>>,
     <<W("f"), X(0), X(it.f), W("c"), X(0), X(it.c), W("total"), T(it.f, it.c, it.pen)>> >>
  \o (IF it.eig = <<>> THEN <<>> ELSE << Words(<<"min", "max", "min", "eig">>) \o Map(X, it.eig) >>)
  \o << <<W("penalty"), D(it.pen, "1e-16")>> >>
  \o << IF it.qp.kind = "ip" THEN <<W("QP-IP"), W(it.qp.term), X(Len(it.qp.its))>> ELSE <<W("QP"), W(it.qp.term)>> >>
  \o << <<W("df/dalpha"), X(it.dd[1]), W("dc/dalpha"), X(it.dd[2])>>, <<W("Search"), W("result"), W(it.res)>> >>
  \o [k \in DOMAIN it.steps |-> <<W("f"), X(k - 1), X(it.steps[k][2]), W("c"), X(k - 1), X(it.steps[k][3]), W("total"), T(it.steps[k][2], it.steps[k][3], it.pen), W("alpha"), D(it.steps[k][1], "1e-10")>>]
  \o (IF inner THEN Flat(Map(InnerLines, it.qp.its)) ELSE <<>>)
Lines(log, inner) ==
  LET one(it) == EntryLines(it, inner) IN Flat(Map(one, log.its)) \o << <<W("termination"), W(log.term)>> >>

(* Does a token of a recorded report show what the specified token says? *)
Shows(got, want) ==
  IF want.k = "w" THEN "w" \in DOMAIN got /\ got.w = want.v
  ELSE "n" \in DOMAIN got /\
    CASE want.k = "x" -> SameNum(NF64(got.n), want.v)
      [] want.k = "d" -> SameNum(got.n, want.v) \/ (NIsFin(want.v) /\ NIsFin(got.n) /\ Near(got.n, want.v, NAdd(want.eps, NMul("1e-15", NAbs(want.v)))))
      [] want.k = "t" ->
           LET pc == NMul(want.p, want.c) s == NAdd(want.v, pc) IN
           IF NIsFin(want.v) /\ NIsFin(pc) /\ NLt(NAbs(s), "1e307") /\ NLt(NAbs(pc), "1e307") THEN NIsFin(got.n) /\ Near(got.n, s, NAdd("1e-300", NMul("1e-14", NAdd(NAbs(want.v), NAbs(pc))))) ELSE TRUE
      [] OTHER -> (* largest of four *)
           IF \E k \in 1..4 : NIsNaN(want.v[k]) THEN TRUE ELSE SameNum(NF64(got.n), VMax(want.v))
ShowsLine(got, want) == Len(got) = Len(want) /\ \A k \in DOMAIN got : Shows(got[k], want[k])
ShowsAll(got, want) == Len(got) = Len(want) /\ \A k \in DOMAIN got : ShowsLine(got[k], want[k])

(* Terminal codes: colours are switched on and off in turn, and off at the end. *)
CodesOK(codes, log) == /\ Len(codes) > 0 /\ Len(codes) % 2 = 0
                       /\ \A k \in DOMAIN codes : (codes[k] = "[0") = (k % 2 = 0)

(***************************************************************************)
(* The document.  Non-finite numbers cannot be written.                    *)
(***************************************************************************)
Norm(v) == IF v \in {"inf", "-inf"} THEN "nan" ELSE v
NormSeq(q) == Map(Norm, q)
NormInner(t) == [k0 |-> NormSeq(t.k0), k1 |-> NormSeq(t.k1), out |-> NormSeq(t.out)]
NormQP(qp) == [kind |-> qp.kind, term |-> qp.term, its |-> Map(NormInner, qp.its), lag |-> NormSeq(qp.lag)]
NormEntry(it) == [i |-> it.i, mode |-> it.mode, lam |-> Norm(it.lam), f |-> Norm(it.f), c |-> Norm(it.c), qp |-> NormQP(it.qp), eig |-> NormSeq(it.eig), dd |-> NormSeq(it.dd),
                  pen |-> Norm(it.pen), res |-> it.res, steps |-> Map(NormSeq, it.steps)]
Normal(log) == [term |-> log.term, its |-> Map(NormEntry, log.its)]

(* Writing and reading, as an abstract format: null for what is absent or cannot be written. *)
Opt1(q) == IF q = <<>> THEN [null |-> TRUE] ELSE [val |-> NormSeq(q)]
Write(log) ==
  LET wq(qp) == IF qp.kind = "ns" THEN [name |-> qp.term] ELSE [termination |-> qp.term, iterations |-> Map(NormInner, qp.its), multipliers |-> Opt1(qp.lag)]
      we(it) == [i |-> it.i, mode |-> it.mode, num |-> NormSeq(<<it.lam, it.f, it.c, it.dd[1], it.dd[2], it.pen>>), qp |-> wq(it.qp), eig |-> Opt1(it.eig), res |-> it.res, steps |-> Map(NormSeq, it.steps)]
  IN [term |-> log.term, its |-> Map(we, log.its)]
Read(doc) ==
  LET ro(o) == IF "null" \in DOMAIN o THEN <<>> ELSE o.val
      rq(d) == IF "termination" \in DOMAIN d THEN [kind |-> "ip", term |-> d.termination, its |-> d.iterations, lag |-> ro(d.multipliers)] ELSE [kind |-> "ns", term |-> d.name, its |-> <<>>, lag |-> <<>>]
      re(e) == [i |-> e.i, mode |-> e.mode, lam |-> e.num[1], f |-> e.num[2], c |-> e.num[3], qp |-> rq(e.qp), eig |-> ro(e.eig), dd |-> <<e.num[4], e.num[5]>>, pen |-> e.num[6], res |-> e.res, steps |-> e.steps]
  IN [term |-> doc.term, its |-> Map(re, doc.its)]

(* The names that a document contains, as a sequence (order does not matter). *)
Names(log) == LET one(it) == <<it.mode, it.res, it.qp.term>> IN <<log.term>> \o Flat(Map(one, log.its))
Occ(q, n) == Cardinality({k \in DOMAIN q : q[k] = n})
SameBag(p, q) == Len(p) = Len(q) /\ \A k \in DOMAIN p : Occ(p, p[k]) = Occ(q, p[k])
=============================================================================
