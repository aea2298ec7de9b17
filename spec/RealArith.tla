------------------------------ MODULE RealArith ------------------------------
(***************************************************************************)
(* Real arithmetic for specifications that are evaluated with TLC.         *)
(*                                                                         *)
(* The operators are the operators of real analysis and linear algebra;    *)
(* TLC evaluates them with the class RealArith (java/RealArith.java),      *)
(* which works with 70 significant decimal digits (or with as many as the  *)
(* property real.digits of the JVM says).  Wherever an operator takes a    *)
(* real it also takes an integer or a decimal literal as a string          *)
(* ("-1.25e-3", "nan").  A string that is not a finite number denotes no   *)
(* real: every comparison with it is false.  Vectors are sequences of      *)
(* reals and matrices are sequences of rows.  Reals are never part of a    *)
(* state: states hold strings and positions in a trace.                    *)
(*                                                                         *)
(* The right-hand sides below are placeholders for SANY: the comments are  *)
(* the definitions.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

R(x)       == x        \* the real number that x denotes
RIsNum(x)  == TRUE     \* does x denote a (finite) real number?
RAdd(a, b) == 0        \* a + b
RSub(a, b) == 0        \* a - b
RMul(a, b) == 0        \* a * b
RDiv(a, b) == 0        \* a / b
RNeg(a)    == 0        \* -a
RAbs(a)    == 0        \* |a|
RSqrt(a)   == 0        \* the positive square root of a
RExp(a)    == 0        \* e^a
RLn(a)     == 0        \* the natural logarithm of a
RPow(a, b) == 0        \* a^b with a > 0
RLe(a, b)  == TRUE     \* a <= b
RLt(a, b)  == TRUE     \* a < b

IsNone(x)  == x = "none" \* for any kind of value x
RSeq(v)    == v        \* the nested sequence v with every leaf replaced by the real it denotes
RSum(v)    == 0        \* sum of the elements of v
RDot(v, w) == 0        \* scalar product
MatVec(A, v) == v      \* A v
Solve(A, b)  == b      \* CHOOSE x : MatVec(A, x) = b
Inverse(A)   == A      \* the inverse of A
MatMul(A, B) == A      \* A B
NormInf(A)   == 0      \* largest sum of the absolute values of a row of A
LnDet(A)     == 0      \* ln |det A|
EigMinMax(A) == <<0, 0>> \* smallest and largest eigenvalue of the symmetric matrix A
MaxAbs(v)    == 0      \* largest |x| of the leaves x of the nested sequence v

\* obs and exp have the same shape and |o - e| <= atol + rtol |e| for all pairs of leaves
Close(obs, exp, rtol, atol) == TRUE

RStr(a)      == ""     \* decimal literal (20 digits) of a

\* Definitions evaluated as written
RHalf(a)     == RDiv(a, 2)
RSq(a)       == RMul(a, a)
RMax(a, b)   == IF RLe(a, b) THEN b ELSE a
RMin(a, b)   == IF RLe(a, b) THEN a ELSE b
VAdd(v, w)   == [i \in 1 .. Len(v) |-> RAdd(v[i], w[i])]
VSub(v, w)   == [i \in 1 .. Len(v) |-> RSub(v[i], w[i])]
VScale(c, v) == [i \in 1 .. Len(v) |-> RMul(c, v[i])]
CloseR(o, e, rtol, atol) == Close(<<o>>, <<e>>, rtol, atol)
=============================================================================
