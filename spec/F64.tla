-------------------------------- MODULE F64 --------------------------------
(***************************************************************************)
(* Real numbers and small dense linear algebra.                            *)
(*                                                                         *)
(* TLC evaluates these operators with the Java class bp.F64Ov (java/), the *)
(* way it evaluates its own Integers: a real is an IEEE double.  The       *)
(* definitions below say what each operator denotes; where the denotation  *)
(* is not constructive it is a CHOOSE over the reals and only the Java     *)
(* class evaluates it.  spec/SelfTest.tla checks the Java class against    *)
(* the defining equations.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Real == {}      \* the reals; never enumerated

FInt(n)      == CHOOSE x \in Real : x = n              \* the integer n
FRat(n, d)   == CHOOSE x \in Real : x * d = n          \* n/d
FParse(s)    == CHOOSE x \in Real : TRUE               \* decimal numeral
FVec(s)      == CHOOSE x \in Seq(Real) : TRUE          \* blank-separated numerals
FStr(x)      == CHOOSE s \in STRING : TRUE             \* numeral of x

FAdd(a, b)   == a + b
FSub(a, b)   == a - b
FMul(a, b)   == a * b
FDiv(a, b)   == CHOOSE x \in Real : x * b = a
FNeg(a)      == 0 - a
FAbs(a)      == IF a < 0 THEN 0 - a ELSE a
FMax(a, b)   == IF a < b THEN b ELSE a
FExp(a)      == CHOOSE x \in Real : TRUE
FLog(a)      == CHOOSE x \in Real : FExp(x) = a
FSqrt(a)     == CHOOSE x \in Real : x * x = a
FLgamma(a)   == CHOOSE x \in Real : TRUE     \* log of the gamma function
FDigamma(a)  == CHOOSE x \in Real : TRUE     \* its derivative
FLt(a, b)    == a < b
FLe(a, b)    == a <= b
FIsNaN(a)    == CHOOSE t \in BOOLEAN : TRUE
FIsFin(a)    == CHOOSE t \in BOOLEAN : TRUE
\* |a-b| <= atol + rtol * max(|a|,|b|); equal infinities are close
FClose(a, b, rtol, atol) == CHOOSE t \in BOOLEAN : TRUE

\* vectors are sequences of reals; matrices are row-major vectors
VSum(v)      == CHOOSE x \in Real : TRUE
VDot(v, w)   == CHOOSE x \in Real : TRUE
VAdd(v, w)   == [i \in DOMAIN v |-> FAdd(v[i], w[i])]
VSub(v, w)   == [i \in DOMAIN v |-> IF v[i] = w[i] THEN FParse("0") ELSE FSub(v[i], w[i])]   \* 0 for equal infinities
VScale(k, v) == [i \in DOMAIN v |-> FMul(k, v[i])]
\* like FClose, with the relative tolerance scaled by the largest finite entry
VClose(v, w, rtol, atol) == CHOOSE t \in BOOLEAN : TRUE
VSame(v, w)  == CHOOSE t \in BOOLEAN : TRUE            \* identical (NaN = NaN)
MMul(n, m, p, A, B) == CHOOSE C \in Seq(Real) : TRUE   \* (n x m) . (m x p)
MInv(n, A)      == CHOOSE B \in Seq(Real) : TRUE       \* inverse of n x n
MLogDet(n, A)   == CHOOSE x \in Real : TRUE            \* log det, NaN if det <= 0
MLogAbsDet(n,A) == CHOOSE x \in Real : TRUE            \* log |det|

F0 == FInt(0)
F1 == FInt(1)
FNaN == FParse("nan")
FInf == FParse("inf")
FHalf == FRat(1, 2)
Log2Pi == FLog(FMul(FInt(2), FParse("3.141592653589793")))
FSq(a) == FMul(a, a)
VConst(n, x) == [i \in 1..n |-> x]
VUnit(n, k)  == [i \in 1..n |-> IF i = k THEN F1 ELSE F0]
\* sum of f(x) over a sequence of arguments
FSumOver(f(_), s) == VSum([i \in DOMAIN s |-> f(s[i])])
FSumTo(f(_), n) == VSum([i \in 1..n |-> f(i)])
VNeg(v) == VScale(FInt(-1), v)
VOuter(v, w) == [k \in 1..(Len(v) * Len(w)) |->
                  FMul(v[((k-1) \div Len(w)) + 1], w[((k-1) % Len(w)) + 1])]
VSym(n, A) == [k \in 1..(n*n) |->
                 LET r == (k-1) \div n
                     c == (k-1) % n
                 IN FMul(FHalf, FAdd(A[r*n+c+1], A[c*n+r+1]))]
VMax(v) == LET RECURSIVE M(_) M(i) == IF i = 1 THEN v[1] ELSE FMax(v[i], M(i-1)) IN M(Len(v))
\* log sum exp
FLogSumExp(v) == LET m == VMax(v) IN
                 IF FIsFin(m) THEN FAdd(m, FLog(VSum([i \in DOMAIN v |-> FExp(FSub(v[i], m))]))) ELSE m
\* multivariate log gamma function: lnGamma_k(a)
FMultiLgamma(k, a) ==
  FAdd(FMul(FRat(k*(k-1), 4), FLog(FParse("3.141592653589793"))),
       VSum([j \in 1..k |-> FLgamma(FAdd(a, FRat(1-j, 2)))]))
FMultiDigamma(k, a) == VSum([j \in 1..k |-> FDigamma(FAdd(a, FRat(1-j, 2)))])
=============================================================================
