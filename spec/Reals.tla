-------------------------------- MODULE Reals --------------------------------
(***************************************************************************)
(* Real numbers for the pydsge specification.                              *)
(*                                                                         *)
(* TLC has only 32-bit integers, so a real is represented by a string that *)
(* holds an IEEE double ("0.5", "-1.2E-4", "nan", "inf", "-inf").  The     *)
(* scalar operators are overridden by java/Reals.java; the vector and      *)
(* matrix operators are overridden for speed only, and their definitions   *)
(* below are what they mean (RealsTest.tla checks override = definition).  *)
(***************************************************************************)
EXTENDS Integers, Sequences

RNum(a)     == CHOOSE x \in STRING : TRUE    \* canonical form of a real (or an integer)
RAdd(a, b)  == CHOOSE x \in STRING : TRUE
RSub(a, b)  == CHOOSE x \in STRING : TRUE
RMul(a, b)  == CHOOSE x \in STRING : TRUE
RDiv(a, b)  == CHOOSE x \in STRING : TRUE
RNeg(a)     == RSub("0.0", a)
RAbs(a)     == CHOOSE x \in STRING : TRUE
RLog(a)     == CHOOSE x \in STRING : TRUE
RExp(a)     == CHOOSE x \in STRING : TRUE
RSqrt(a)    == CHOOSE x \in STRING : TRUE
RLgamma(a)  == CHOOSE x \in STRING : TRUE
RMax(a, b)  == CHOOSE x \in STRING : TRUE
RMin(a, b)  == CHOOSE x \in STRING : TRUE
RLt(a, b)   == CHOOSE x \in BOOLEAN : TRUE
RLeq(a, b)  == CHOOSE x \in BOOLEAN : TRUE
REq(a, b)   == RLeq(a, b) /\ RLeq(b, a)
RIsNum(a)   == CHOOSE x \in BOOLEAN : TRUE    \* finite
RIsNaN(a)   == CHOOSE x \in BOOLEAN : TRUE

\* |a - b| <= tol * (1 + max(|a|, |b|)); equal infinities are close, nan is close to nan only
RClose(a, b, tol) == RLeq(RAbs(RSub(a, b)), RMul(tol, RAdd("1.0", RMax(RAbs(a), RAbs(b)))))

RECURSIVE VSumN(_, _)
VSumN(v, n) == IF n = 0 THEN "0.0" ELSE RAdd(VSumN(v, n - 1), v[n])

VSum(v)       == VSumN(v, Len(v))
VDot(v, w)    == VSumN([i \in 1..Len(v) |-> RMul(v[i], w[i])], Len(v))
VAdd(v, w)    == [i \in 1..Len(v) |-> RAdd(v[i], w[i])]
VSub(v, w)    == [i \in 1..Len(v) |-> RSub(v[i], w[i])]
VScale(k, v)  == [i \in 1..Len(v) |-> RMul(k, v[i])]
RECURSIVE VMaxAbsN(_, _)
VMaxAbsN(v, n) == IF n = 0 THEN "0.0" ELSE RMax(VMaxAbsN(v, n - 1), RAbs(v[n]))
VMaxAbs(v)    == VMaxAbsN(v, Len(v))
VClose(v, w, tol) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : RClose(v[i], w[i], tol)

MVec(A, v)    == [i \in 1..Len(A) |-> VDot(A[i], v)]
MT(A)         == [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]
MMul(A, B)    == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |->
                    VSumN([k \in 1..Len(B) |-> RMul(A[i][k], B[k][j])], Len(B))]]
MAdd(A, B)    == [i \in 1..Len(A) |-> VAdd(A[i], B[i])]
MSub(A, B)    == [i \in 1..Len(A) |-> VSub(A[i], B[i])]
MScale(k, A)  == [i \in 1..Len(A) |-> VScale(k, A[i])]
MId(n)        == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1.0" ELSE "0.0"]]
MZero(n, m)   == [i \in 1..n |-> [j \in 1..m |-> "0.0"]]
MMaxAbs(A)    == VMaxAbs([i \in 1..Len(A) |-> VMaxAbs(A[i])])
MClose(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VClose(A[i], B[i], tol)
MSolve(A, B)  == CHOOSE X \in Seq(Seq(STRING)) : MClose(MMul(A, X), B, "1e-9")   \* A X = B
\* the square root of a symmetric, positive semi-definite matrix that is of that kind itself
MSqrt(A)      == CHOOSE X \in Seq(Seq(STRING)) : MClose(MMul(X, X), A, "1e-9") /\ X = MT(X)
MLogDet(A)    == CHOOSE x \in STRING : TRUE   \* log |det A|

\* derived
MInv(A)       == MSolve(A, MId(Len(A)))
MNeg(A)       == MScale("-1.0", A)
VNeg(v)       == VScale("-1.0", v)
VZero(n)      == [i \in 1..n |-> "0.0"]
VUnit(n, i)   == [j \in 1..n |-> IF i = j THEN "1.0" ELSE "0.0"]
\* A x = b for a vector b
VSolve(A, b)  == LET X == MSolve(A, [i \in 1..Len(b) |-> <<b[i]>>]) IN [i \in 1..Len(b) |-> X[i][1]]
RGt(a, b)     == RLt(b, a)
RGeq(a, b)    == RLeq(b, a)
================================================================================
