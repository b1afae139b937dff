-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact numbers for the specification of mini_opt.                        *)
(*                                                                         *)
(* A number is a string: an integer "7", a fraction "22/7", a decimal      *)
(* "1e-9", a hexadecimal floating point literal "0x1.8p-3" (read exactly), *)
(* or one of "nan", "inf", "-inf".  TLC integers are accepted too.  All    *)
(* operators are evaluated without rounding by spec/java/NumOverrides.java *)
(* (BigInteger rationals); comparisons with nan are FALSE, as in IEEE 754. *)
(* TLC replaces the bodies below; the vector and matrix operators are      *)
(* given their defining equations in terms of the scalar ones, and         *)
(* NumTest.tla compares the Java versions with these equations.            *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

LOCAL Primitive(x) == Assert(FALSE, <<"Num.tla needs the Java overrides in spec/java", x>>)

NAdd(a, b) == Primitive("NAdd")   \* a + b
NSub(a, b) == Primitive("NSub")   \* a - b
NMul(a, b) == Primitive("NMul")   \* a * b
NDiv(a, b) == Primitive("NDiv")   \* a / b
NNeg(a)    == Primitive("NNeg")   \* -a
NLe(a, b)  == Primitive("NLe")    \* a <= b
NLt(a, b)  == Primitive("NLt")    \* a < b
NEq(a, b)  == Primitive("NEq")    \* a = b as numbers
NIsFin(a)  == Primitive("NIsFin") \* neither nan nor infinite
NIsNaN(a)  == Primitive("NIsNaN")
NSqrt(a)   == Primitive("NSqrt")  \* square root to 130 bits
NF64(a)    == Primitive("NF64")   \* nearest double
NStr(a)    == Primitive("NStr")   \* canonical string
NShow(a)   == Primitive("NShow")  \* short decimal, for messages
NAbs(a)    == IF NLt(a, "0") THEN NNeg(a) ELSE a
NMax(a, b) == IF NLe(a, b) THEN b ELSE a
NMin(a, b) == IF NLe(a, b) THEN a ELSE b

a \oplus b   == NAdd(a, b)
a \ominus b  == NSub(a, b)
a \otimes b  == NMul(a, b)
a \oslash b  == NDiv(a, b)
a \preceq b  == NLe(a, b)
a \prec b    == NLt(a, b)
a \succeq b  == NLe(b, a)
a \succ b    == NLt(b, a)

(* Vectors are sequences of numbers, matrices sequences of rows. *)
VAdd(u, v)   == [i \in DOMAIN u |-> NAdd(u[i], v[i])]
VSub(u, v)   == [i \in DOMAIN u |-> NSub(u[i], v[i])]
VHad(u, v)   == [i \in DOMAIN u |-> NMul(u[i], v[i])]
VScale(k, u) == [i \in DOMAIN u |-> NMul(k, u[i])]
VAbs(u)      == [i \in DOMAIN u |-> NAbs(u[i])]
VStr(u)      == [i \in DOMAIN u |-> NStr(u[i])]
Vec(u)       == u                 \* the same vector; makes TLC evaluate it once
Mat(M)       == M
VSum(u)      == LET S[k \in 0..Len(u)] == IF k = 0 THEN "0" ELSE NAdd(S[k-1], u[k]) IN S[Len(u)]
VDot(u, v)   == VSum(VHad(u, v))
VNorm1(u)    == VSum(VAbs(u))
VNormInf(u)  == LET S[k \in 0..Len(u)] == IF k = 0 THEN "0" ELSE NMax(S[k-1], NAbs(u[k])) IN S[Len(u)]
VFinite(u)   == \A i \in DOMAIN u : NIsFin(u[i])
VEq(u, v)    == Len(u) = Len(v) /\ \A i \in DOMAIN u : NEq(u[i], v[i]) \/ (NIsNaN(u[i]) /\ NIsNaN(v[i]))
MVec(M, u)   == [i \in DOMAIN M |-> VDot(M[i], u)]
MTVec(M, u, n) == [j \in 1..n |-> VSum([i \in DOMAIN M |-> NMul(M[i][j], u[i])])]
SymLow(M)    == [i \in DOMAIN M |-> [j \in DOMAIN M |-> IF i >= j THEN M[i][j] ELSE M[j][i]]]
Congruence(Z, G) == [i \in DOMAIN Z |-> [j \in DOMAIN Z |-> VDot(Z[i], MVec(G, Z[j]))]]

(* Exact linear algebra.  Defining equations (checked in NumTest.tla):     *)
(*   LinSolve(M,b) : M x = b for regular square M, <<>> if M is singular   *)
(*   Rank, Consistent(M,b) (M x = b solvable), Particular(M,b,n) (one x)   *)
(*   NullBasis(M,n) : rows form a basis of { x : M x = 0 }                 *)
(*   Inertia(M) : <<neg, zero, pos>> eigenvalue counts of symmetric M      *)
(*   InvNorm(M) : double precision estimate of the inf-norm of M^-1; used  *)
(*                only to size tolerances                                  *)
LinSolve(M, b)      == Primitive("LinSolve")
Regular(M)          == Primitive("Regular")
Rank(M)             == Primitive("Rank")
Consistent(M, b)    == Primitive("Consistent")
Particular(M, b, n) == Primitive("Particular")
NullBasis(M, n)     == Primitive("NullBasis")
Inertia(M)          == Primitive("Inertia")
PosDef(M)           == Inertia(M)[3] = Len(M)
InvNorm(M)          == Primitive("InvNorm")

(* Derived. *)
Zeros(n)   == [i \in 1..n |-> "0"]
Unit(n, k) == [i \in 1..n |-> IF i = k THEN "1" ELSE "0"]
VNorm2Sq(u) == VDot(u, u)
MNormInf(M) == LET S[k \in 0..Len(M)] == IF k = 0 THEN "0" ELSE NMax(S[k-1], VNorm1(M[k])) IN S[Len(M)]
MSubDiag(M, t) == [i \in DOMAIN M |-> [j \in DOMAIN M |-> IF i = j THEN NSub(M[i][j], t) ELSE M[i][j]]]
MNeg(M)    == [i \in DOMAIN M |-> VScale("-1", M[i])]
VMin(u)    == LET S[k \in 1..Len(u)] == IF k = 1 THEN u[1] ELSE NMin(S[k-1], u[k]) IN S[Len(u)]
VMax(u)    == LET S[k \in 1..Len(u)] == IF k = 1 THEN u[1] ELSE NMax(S[k-1], u[k]) IN S[Len(u)]
Near(a, b, tol) == NLe(NAbs(NSub(a, b)), tol)
(* Equal up to a relative error r of the given scale. *)
NearR(a, b, r) == NLe(NAbs(NSub(a, b)), NMul(r, NMax(NAbs(a), NAbs(b))))
SameNum(a, b) == (NIsNaN(a) /\ NIsNaN(b)) \/ NEq(a, b) 
(* Eigenvalue statistics by inertia: <<least, greatest, least magnitude>>. *)
EigOK(G, e) ==
  LET t == "1e-9" \otimes ("1e-30" \oplus MNormInf(G)) n == Len(G)
      neg(s) == Inertia(MSubDiag(G, s))[1]      \* eigenvalues below s
  IN  /\ neg(e[1] \ominus t) = 0 /\ neg(e[1] \oplus t) >= 1
      /\ neg(e[2] \oplus t) = n /\ neg(e[2] \ominus t) <= n - 1
      /\ "0" \preceq e[3]
      /\ neg(e[3] \ominus t) <= neg(NNeg(e[3]) \oplus t) \/ e[3] \preceq t
      /\ neg(e[3] \oplus t) > neg(NNeg(e[3]) \ominus t)
=============================================================================
