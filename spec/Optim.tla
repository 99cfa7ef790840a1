-------------------------------- MODULE Optim ---------------------------------
(***************************************************************************)
(* Gradient based optimisation of the lower bound over the natural         *)
(* parameters of some nodes, while the collapsed nodes follow as exact     *)
(* coordinate optima.                                                      *)
(*                                                                         *)
(* A search point is a function from the optimised nodes to the natural    *)
(* parameters of their elements.                                           *)
(***************************************************************************)
EXTENDS Transform

\* Natural parameters of categories are defined up to a constant: for sums and
\* differences the representative with mean zero is taken (Canon is not linear);
\* those of chains of categories up to what leaves the weights of paths alone
Center(v) == LET m == FDiv(VSum(v), FInt(Len(v))) IN [i \in DOMAIN v |-> FSub(v[i], m)]
Lin(nd, phi) ==
  LET d == Inner(nd.d) IN
  IF d.k \in {"Categorical", "Multinomial"} THEN <<Center(phi[1])>>
  ELSE IF d.k = "CMC" THEN <<Center(PathWeights(d.N, d.K, phi))>> ELSE Canon(nd, phi)

AbsM(v) == VMax([i \in 1..(Len(v) + 1) |-> IF i > Len(v) THEN F0 ELSE FAbs(v[i])])
MinDiag(n, A) == FNeg(VMax([i \in 1..n |-> FNeg(FAbs(A[(i-1)*n + i]))]))

\* relative size of the direction v at phi, in the natural scale of the family
DirSize(nd, phi, v) ==
  LET d == Inner(nd.d)
      n == Prod(nd.S)
  IN  CASE d.k \in {"Gaussian", "GaussianARD"} -> FDiv(AbsM(v[2]), MinDiag(n, phi[2]))
        [] d.k \in {"Gamma"} -> FMax(FDiv(AbsM(v[1]), AbsM(phi[1])), FDiv(AbsM(v[2]), AbsM(phi[2])))
        [] d.k \in {"Dirichlet", "Beta"} ->
             VMax([i \in DOMAIN v[1] |-> FDiv(FAbs(v[1][i]), FAbs(phi[1][i]))])
        [] OTHER -> AbsM(v[1])

\* derivative of the moments along v: the Fisher information times v
FisherTimes(nd, e, phi, v) ==
  LET h == FDiv(FParse("1e-3"), FMax(F1, DirSize(nd, phi, v)))
      At_(k) == Mom(DAt(nd, e), nd.S, MAdd(phi, MScale(FMul(FInt(k), h), v)))[1]
      A == TLCEval(MSub(At_(1), At_(-1)))
      B == TLCEval(MSub(At_(2), At_(-2)))
  IN  TLCEval(MScale(FDiv(F1, FMul(FInt(12), h)), MSub(MScale(FInt(8), A), B)))

\* gradient of the lower bound with respect to the natural parameters
EucGrad(s, M, D, live, n, e) ==
  MScale(FDiv(F1, s.an[n]), FisherTimes(M[n], e, s.ph[n][e], NatGrad(s, M, D, live, n, e)))

\* ---------------------------------------------------------------- search points
Pt(M, ns, F(_, _)) ==
  TLCEval([i \in DOMAIN ns |-> TLCEval([e \in El(M, ns[i]) |-> F(ns[i], e)])])
PAdd(a, b) == [i \in DOMAIN a |-> [e \in DOMAIN a[i] |-> MAdd(a[i][e], b[i][e])]]
PSub(a, b) == [i \in DOMAIN a |-> [e \in DOMAIN a[i] |-> MSub(a[i][e], b[i][e])]]
PScale(k, a) == [i \in DOMAIN a |-> [e \in DOMAIN a[i] |-> MScale(k, a[i][e])]]
PDot(a, b) == FSumTo(LAMBDA i : FSumTo(LAMBDA e : MDot(a[i][e], b[i][e]), Len(a[i])), Len(a))
PMax(a) == VMax([i \in DOMAIN a |-> VMax([e \in DOMAIN a[i] |-> VMax([k \in DOMAIN a[i][e] |-> AbsM(a[i][e][k])])])])

Point(s, M, ns) == Pt(M, ns, LAMBDA n, e : Lin(M[n], s.ph[n][e]))
RiemPoint(s, M, D, live, ns) == Pt(M, ns, LAMBDA n, e : Lin(M[n], NatGrad(s, M, D, live, n, e)))
EucPoint(s, M, D, live, ns) == Pt(M, ns, LAMBDA n, e : EucGrad(s, M, D, live, n, e))

\* the coefficient c for which x is nearest to c * dir, and whether it is
Coef(x, dir) == FDiv(PDot(x, dir), PDot(dir, dir))
Along(x, dir, tol) ==
  LET c == Coef(x, dir) IN FIsFin(c) /\ FLe(PMax(PSub(x, PScale(c, dir))), tol)

\* the step lengths of the optimiser: 1 grows by sqrt(2) with every success and
\* is halved after failures
StepLength(c, t) ==
  /\ FLt(F0, c)
  /\ \E j \in -120..t : FClose(FDiv(FMul(FInt(2), FLog(c)), FLog(FInt(2))), FInt(j), F0, FParse("1e-2"))

\* set the parameters of several nodes, then let the collapsed nodes follow
RECURSIVE SetAll(_, _, _, _)
SetAll(s, M, ns, ph) ==
  IF ns = <<>> THEN s ELSE SetAll(TLCEval(SetParams(s, M, Head(ns), ph[Head(ns)])), M, Tail(ns), ph)
RECURSIVE UpdateAll(_, _, _, _, _)
UpdateAll(s, M, D, live, ns) ==
  IF ns = <<>> THEN s ELSE UpdateAll(TLCEval(Update(s, M, D, live, Head(ns))), M, D, live, Tail(ns))
=============================================================================
