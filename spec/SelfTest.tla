------------------------------- MODULE SelfTest -------------------------------
(***************************************************************************)
(* The Java class bp.F64Ov against the definitions and defining equations  *)
(* of the operators it evaluates: exhaustively over small shapes for       *)
(* module Nd, over a sample of reals and matrices for module F64.          *)
(***************************************************************************)
EXTENDS F64, Nd, TLC

\* ------------------------------------------------------------------ Nd
RECURSIVE ProdD(_)
ProdD(sh) == IF sh = <<>> THEN 1 ELSE Head(sh) * ProdD(Tail(sh))
RECURSIVE BFlatD(_, _)
BFlatD(sh, idx) ==
  IF sh = <<>> THEN 1
  ELSE LET n == Len(sh)
           v == IF sh[n] = 1 THEN 0 ELSE idx[Len(idx)]
       IN  (BFlatD(SubSeq(sh, 1, n-1), SubSeq(idx, 1, Len(idx)-1)) - 1) * sh[n] + v + 1
RECURSIVE UnFlatD(_, _)
UnFlatD(sh, e) ==
  IF sh = <<>> THEN <<>>
  ELSE LET n == Len(sh)
       IN  UnFlatD(SubSeq(sh, 1, n-1), ((e-1) \div sh[n]) + 1) \o <<(e-1) % sh[n]>>

Shapes == UNION {[1..n -> 1..3] : n \in 0..3}
NdOk ==
  \A sh \in Shapes :
    /\ Prod(sh) = ProdD(sh)
    /\ \A e \in 1..ProdD(sh) :
         /\ UnFlat(sh, e) = UnFlatD(sh, e)
         /\ BFlat(sh, UnFlat(sh, e)) = e
    \* reading with every index of every shape which sh broadcasts to
    /\ \A f \in Shapes : IsSubShape(sh, f) =>
         \A e \in 1..ProdD(f) : BFlat(sh, UnFlatD(f, e)) = BFlatD(sh, UnFlatD(f, e))

\* ------------------------------------------------------------------ reals
Eps == FParse("1e-11")
Close(x, y) == FClose(x, y, Eps, Eps)
VC(x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : Close(x[i], y[i])
Num == {FParse(s) : s \in {"-3.25", "-1", "-0.1", "0", "1e-3", "0.5", "1", "1.4616321449683623", "2", "7.75", "40"}}
Pos == {x \in Num : FLt(F0, x)}

Arith ==
  /\ \A i \in -4..4 : \A j \in -4..4 :
       /\ Close(FAdd(FInt(i), FInt(j)), FInt(i + j))
       /\ Close(FMul(FInt(i), FInt(j)), FInt(i * j))
       /\ Close(FSub(FInt(i), FInt(j)), FInt(i - j))
       /\ FLt(FInt(i), FInt(j)) = (i < j)
       /\ FLe(FInt(i), FInt(j)) = (i <= j)
       /\ Close(FMax(FInt(i), FInt(j)), FInt(IF i < j THEN j ELSE i))
       /\ j # 0 => Close(FMul(FRat(i, j), FInt(j)), FInt(i))
       /\ Close(FInt(i), FInt(j)) = (i = j)
  /\ \A x \in Num :
       /\ Close(FAdd(x, FNeg(x)), F0)
       /\ Close(FAbs(x), FMax(x, FNeg(x)))
       /\ Close(FParse(FStr(x)), x)
       /\ FIsFin(x) /\ ~FIsNaN(x)
       /\ Close(FMul(FExp(x), FExp(FNeg(x))), F1)
       /\ \A y \in Num : Close(FExp(FAdd(x, y)), FMul(FExp(x), FExp(y)))
  /\ \A x \in Pos :
       /\ Close(FDiv(F1, FDiv(F1, x)), x)
       /\ Close(FLog(FExp(x)), x)
       /\ Close(FExp(FLog(x)), x)
       /\ Close(FMul(FSqrt(x), FSqrt(x)), x)
  /\ FIsNaN(FNaN) /\ ~FIsFin(FNaN) /\ ~FIsFin(FInf) /\ ~FIsNaN(FInf)
  /\ ~FClose(FNaN, F1, F1, F1) /\ FClose(FInf, FInf, Eps, Eps) /\ ~FClose(FInf, F1, F1, F1)
  /\ FIsNaN(FSub(FInf, FInf))
  /\ Close(FExp(F1), FParse("2.718281828459045"))
  /\ \A v \in {<<>>, <<F1>>, <<F1, FHalf, FInt(-3)>>} :
       /\ Len(FVec("1 0.5 -3")) = 3
       /\ VSum(v) = VSum(v)
  /\ VC(FVec("1 0.5 -3"), <<F1, FHalf, FInt(-3)>>)

\* the gamma function by its recurrence, factorials and duplication formula;
\* digamma by its recurrence and as the derivative of log gamma
Gamma_ ==
  /\ \A x \in Pos :
       /\ Close(FLgamma(FAdd(x, F1)), FAdd(FLgamma(x), FLog(x)))
       /\ Close(FDigamma(FAdd(x, F1)), FAdd(FDigamma(x), FDiv(F1, x)))
       /\ LET h == FMul(FParse("1e-4"), x)
              d == FDiv(FSub(FLgamma(FAdd(x, h)), FLgamma(FSub(x, h))), FMul(FInt(2), h))
          IN  FClose(FDigamma(x), d, FParse("1e-6"), FParse("1e-6"))
       /\ Close(FAdd(FLgamma(x), FLgamma(FAdd(x, FHalf))),
                FAdd(FAdd(FMul(FSub(F1, FMul(FInt(2), x)), FLog(FInt(2))),
                          FMul(FHalf, FLog(FParse("3.141592653589793")))), FLgamma(FMul(FInt(2), x))))
  /\ Close(FLgamma(FInt(1)), F0) /\ Close(FLgamma(FInt(2)), F0)
  /\ Close(FLgamma(FInt(11)), FLog(FInt(3628800)))
  /\ Close(FLgamma(FHalf), FMul(FHalf, FLog(FParse("3.141592653589793"))))
  /\ Close(FDigamma(F1), FParse("-0.5772156649015329"))

\* ------------------------------------------------------------------ vectors and matrices
Vs == {<<F1, FHalf, FInt(-3)>>, <<F0, FParse("2.5"), FParse("1e-3")>>, <<FInt(4), FInt(-4), FInt(7)>>}
VecOk ==
  /\ \A v \in Vs : \A w \in Vs :
       /\ VC(VAdd(v, w), [i \in 1..3 |-> FAdd(v[i], w[i])])
       /\ VC(VSub(v, w), [i \in 1..3 |-> FSub(v[i], w[i])])
       /\ VC(VScale(v[1], w), [i \in 1..3 |-> FMul(v[1], w[i])])
       /\ Close(VSum(v), FAdd(v[1], FAdd(v[2], v[3])))
       /\ Close(VDot(v, w), VSum([i \in 1..3 |-> FMul(v[i], w[i])]))
       /\ VC(VOuter(v, w), [k \in 1..9 |-> FMul(v[((k-1) \div 3) + 1], w[((k-1) % 3) + 1])])
       /\ VClose(v, w, Eps, Eps) = (v = w)
       /\ VSame(v, w) = (v = w)
  /\ VSame(<<FNaN, F1>>, <<FNaN, F1>>) /\ ~VSame(<<FNaN>>, <<F1>>) /\ ~VClose(<<FNaN>>, <<F1>>, F1, F1)
  /\ VClose(<<FInf, F1>>, <<FInf, F1>>, Eps, Eps) /\ ~VClose(<<FInf, F1>>, <<FNeg(FInf), F1>>, Eps, Eps)
  \* the tolerance is relative to the largest entry
  /\ VClose(<<FInt(100), F0>>, <<FInt(100), FParse("1e-10")>>, Eps, F0)
  /\ ~VClose(<<F1, F0>>, <<F1, FParse("1e-6")>>, Eps, Eps)
  /\ VC(VConst(2, FHalf), <<FHalf, FHalf>>) /\ VC(VUnit(3, 2), <<F0, F1, F0>>)
  /\ VC(VSym(2, <<F1, FInt(2), FInt(4), FHalf>>), <<F1, FInt(3), FInt(3), FHalf>>)

Ent == {FInt(-1), F0, FHalf, FInt(2)}
M2 == {<<a, b, c, d>> : a \in Ent, b \in Ent, c \in Ent, d \in Ent}
Det2(A) == FSub(FMul(A[1], A[4]), FMul(A[2], A[3]))
M3 == {<<FInt(4), FInt(a), FInt(b), FInt(c), FInt(5), FInt(a), FInt(b), FInt(-1), FInt(6)>> : a, b, c \in {-1, 0, 2}}
Det3(A) == FAdd(FSub(FMul(A[1], FSub(FMul(A[5], A[9]), FMul(A[6], A[8]))),
                     FMul(A[2], FSub(FMul(A[4], A[9]), FMul(A[6], A[7])))),
                FMul(A[3], FSub(FMul(A[4], A[8]), FMul(A[5], A[7]))))
Id(n) == [t \in 1..(n*n) |-> IF (t-1) % (n+1) = 0 THEN F1 ELSE F0]
MMulD(n, m, p, A, B) == [t \in 1..(n*p) |->
   VSum([k \in 1..m |-> FMul(A[((t-1) \div p)*m + k], B[(k-1)*p + ((t-1) % p) + 1])])]
LogDetOk(n, A, d) ==
  /\ IF FLt(F0, d) THEN FClose(MLogDet(n, A), FLog(d), FParse("1e-10"), FParse("1e-10"))
     ELSE FIsNaN(MLogDet(n, A)) \/ ~FLt(d, F0)
  /\ FLt(F0, FAbs(d)) => FClose(MLogAbsDet(n, A), FLog(FAbs(d)), FParse("1e-10"), FParse("1e-10"))
  /\ FLt(F0, FAbs(d)) => VC(MMul(n, n, n, MInv(n, A), A), Id(n))
MatOk ==
  /\ \A A \in M2 : LogDetOk(2, A, Det2(A))
  /\ \A A \in M3 : LogDetOk(3, A, Det3(A))
  /\ \A A \in M3 :
       /\ VC(MMul(3, 3, 3, A, A), MMulD(3, 3, 3, A, A))
       /\ VC(MMul(1, 3, 3, SubSeq(A, 1, 3), A), MMulD(1, 3, 3, SubSeq(A, 1, 3), A))
       /\ VC(MMul(3, 3, 1, A, SubSeq(A, 4, 6)), MMulD(3, 3, 1, A, SubSeq(A, 4, 6)))
  /\ VC(MMul(2, 1, 2, <<F1, FHalf>>, <<FInt(3), FInt(2)>>), <<FInt(3), FInt(2), FRat(3, 2), F1>>)

ASSUME PrintT(<<"SELF", "Nd", NdOk>>)
ASSUME PrintT(<<"SELF", "Arith", Arith>>)
ASSUME PrintT(<<"SELF", "Gamma", Gamma_>>)
ASSUME PrintT(<<"SELF", "Vec", VecOk>>)
ASSUME PrintT(<<"SELF", "Mat", MatOk>>)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
===============================================================================
