-------------------------------- MODULE Query ---------------------------------
(***************************************************************************)
(* Questions a user asks of the posterior approximation.  None of them     *)
(* changes the state (every query is a stuttering step of VMP); their      *)
(* answers are functions of it:                                            *)
(*                                                                         *)
(*   draws      random() draws from q: the sample means of the statistics  *)
(*              of N draws lie within sampling error of their expectations *)
(*              under q, draws of different elements are independent       *)
(*   text       str(node) and show() print the parameters of q             *)
(*   pdf        the density                                                *)
(*   location, meanvar, marginal                                           *)
(*              marginals of a Gaussian-gamma variable                     *)
(*   predict    the predictive density of a mixture with the assignment    *)
(*              integrated out                                             *)
(***************************************************************************)
EXTENDS VMP

(***************************************************************************)
(* Draws.                                                                  *)
(***************************************************************************)
\* statistics beyond the sufficient ones which show the spread of the draws
XStat(d, S, u, ph) ==
  CASE d.k \in {"Dirichlet", "Beta"} ->
         LET p == VScale(FDiv(F1, VSum(ph[1])), ph[1]) IN IF d.k = "Beta" THEN <<p[1]>> ELSE p
    [] d.k = "Poisson" -> <<FAdd(u[1][1], FSq(u[1][1]))>>
    [] d.k = "Binomial" ->
         LET m == u[1][1] IN <<FAdd(FMul(m, FSub(F1, FDiv(m, FInt(d.n)))), FSq(m))>>
    [] d.k = "Multinomial" ->
         LET p == VScale(FDiv(F1, FInt(d.n)), u[1])
             K == Len(p)
         IN  [t \in 1..(K*K) |->
                LET a == ((t-1) \div K) + 1
                    b == ((t-1) % K) + 1
                IN  FAdd(FMul(FInt(d.n * (d.n - 1)), FMul(p[a], p[b])), IF a = b THEN u[1][a] ELSE F0)]
    [] OTHER -> <<>>

\* a sample mean m with standard deviation sd of one draw against its
\* expectation x: seven standard errors.  Counts may not have been seen at
\* all, so their spread is not just the one seen.
Near(m, sd, x, N, count) ==
  \/ ~FIsFin(m)                   \* a statistic overflowed: nothing is said
  \/ LET rt == FSqrt(FInt(N))
         slack == IF count THEN FAdd(FDiv(FMul(FInt(7), FSqrt(FAbs(x))), rt), FRat(30, N)) ELSE F0
     IN  FLe(FAbs(FSub(m, x)),
             FAdd(FAdd(FDiv(FMul(FInt(7), sd), rt), slack),
                  FMul(FParse("1e-8"), FAdd(F1, FAbs(x)))))
NearAll(m, sd, x, N, count) == \A i \in DOMAIN x : Near(m[i], sd[i], x[i], N, count)
\* frequencies of events of probability x
NearP(m, x, N) ==
  ~FIsFin(m) \/ LET v == FMax(F0, FMul(x, FSub(F1, x)))
                IN  FLe(FAbs(FSub(m, x)),
                        FAdd(FAdd(FMul(FInt(6), FSqrt(FDiv(v, FInt(N)))), FRat(15, N)), FParse("1e-8")))
NearPs(m, x, N) == \A i \in DOMAIN x : NearP(m[i], x[i], N)
Events == {"Categorical", "Bernoulli", "CMC"}

DrawShape(nd) == nd.pl \o nd.S
DrawsOK(b, M, op) ==      \* the shapes are right already
  LET nd == M[op.n]
      d == Inner(nd.d)
      K == NComp(nd)
      mean == TLCEval([k \in 1..K |-> FVec(op.mean[k])])
      sd == TLCEval([k \in 1..K |-> FVec(op.sd[k])])
      xm == FVec(op.xmean)
      xs == FVec(op.xsd)
      cut(v, e, W) == SubSeq(v, (e-1)*W + 1, e*W)
      us == TLCEval([e \in El(M, op.n) |-> U(b.us, M, op.n, e)])
  IN  /\ \A e \in El(M, op.n) : \A k \in 1..K :
           LET W == CompLen(nd, k)
           IN  IF d.k \in Events THEN NearPs(cut(mean[k], e, W), us[e][k], op.N)
               ELSE NearAll(cut(mean[k], e, W), cut(sd[k], e, W), us[e][k], op.N, op.count)
      /\ IsDet(nd) \/ op.xmean = "" \/ \A e \in El(M, op.n) :
           LET x == XStat(Inner(DAt(nd, e)), nd.S, us[e], b.ph[op.n][e])
               W == Len(x)
           IN  NearAll(cut(xm, e, W), cut(xs, e, W), x, op.N, op.count)
      /\ \A i \in DOMAIN op.cross :
           LET c == op.cross[i]
               v == FVec(c.v)
           IN  Near(v[1], v[2], FMul(us[c.e[1]][1][c.c], us[c.e[2]][1][c.c]), op.N, op.count)
\* the expectations are those of q (not of a value put in as a point mass)
Drawable(b, M, n) ==
  IF IsStoch(M[n]) THEN \A e \in El(M, n) : b.ok[n][e] /\ ~b.ob[n][e]
  ELSE \A i \in DOMAIN M[n].par :
         LET p == M[n].par[i] IN IsConst(M[p]) \/ \A e \in El(M, p) : b.ok[p][e] /\ ~b.ob[p][e]

(***************************************************************************)
(* Printed parameters: <<name, shape of one element, its values>>          *)
(***************************************************************************)
TextOf(nd, e, u, ph) ==
  LET d == DAt(nd, e)
      n == Prod(nd.S)
  IN CASE d.k \in {"Gaussian", "GaussianARD"} ->
            << <<"mu", nd.S, u[1]>>, <<"Cov", nd.S \o nd.S, VSub(u[2], VOuter(u[1], u[1]))>> >>
       [] d.k = "Gamma" -> << <<"a", <<>>, ph[2]>>, <<"b", <<>>, VNeg(ph[1])>> >>
       [] d.k = "Wishart" ->      \* degrees of freedom and mean per degree
            LET nn == FMul(FInt(2), ph[2][1])
            IN  << <<"n", <<>>, <<nn>> >>, <<"A", nd.S, VScale(FDiv(F1, nn), u[1])>> >>
       [] d.k = "Dirichlet" -> << <<"alpha", nd.S, ph[1]>> >>
       [] d.k = "Beta" -> << <<"a", <<>>, <<ph[1][1]>> >>, <<"b", <<>>, <<ph[1][2]>> >> >>
       [] d.k = "Categorical" -> << <<"p", <<d.K>>, u[1]>> >>
       [] d.k = "Bernoulli" -> << <<"p", <<>>, u[1]>> >>
       [] d.k = "Binomial" -> << <<"n", <<>>, <<FInt(d.n)>> >>, <<"p", <<>>, VScale(FDiv(F1, FInt(d.n)), u[1])>> >>
       [] d.k = "Multinomial" -> << <<"p", nd.S, VScale(FDiv(F1, FInt(d.n)), u[1])>> >>
       [] d.k = "Poisson" -> << <<"lambda", <<>>, u[1]>> >>
FamilyOf(d) == IF d.k = "GaussianARD" THEN "Gaussian" ELSE d.k

\* what is printed may leave out plates along which nothing changes
TextOK(b, M, op, rtol, atol) ==
  LET nd == M[op.n]
      sec == TLCEval([i \in DOMAIN op.secs |-> FVec(op.secs[i].v)])
  IN  /\ op.title = nd.name
      /\ op.family = FamilyOf(nd.d)
      /\ \A e \in El(M, op.n) :
           LET t == TLCEval(TextOf(nd, e, b.us[op.n][e], b.ph[op.n][e]))
               idx == UnFlat(nd.pl, e)
           IN  /\ Len(t) = Len(op.secs)
               /\ \A i \in DOMAIN t :
                    /\ op.secs[i].label = t[i][1]
                    /\ Len(op.secs[i].sh) <= Len(nd.pl) + Len(t[i][2])
                    /\ \A c \in DOMAIN t[i][3] :
                         FClose(t[i][3][c], sec[i][BFlat(op.secs[i].sh, idx \o UnFlat(t[i][2], c))], rtol, atol)

(***************************************************************************)
(* Gaussian-gamma: x | t ~ N(mu, Cov / t), t ~ Gamma(a, b).                *)
(***************************************************************************)
GGOf(nd, ph) ==
  LET n == Prod(nd.S)
      Cov == MInv(n, VSym(n, VScale(FInt(-2), ph[2])))
      mu == MMul(n, n, 1, Cov, ph[1])
  IN  [mu |-> mu, Cov |-> Cov, a |-> ph[4][1],
       b |-> FSub(FNeg(ph[3][1]), FMul(FHalf, VDot(mu, ph[1])))]
\* the vector alone: a Student t with 2a degrees of freedom
GGMean(nd, ph) == GGOf(nd, ph).mu
GGVar(nd, ph) ==
  LET g == GGOf(nd, ph)
      n == Prod(nd.S)
  IN  [c \in 1..n |-> FDiv(FMul(g.Cov[(c-1)*n + c], g.b), FSub(g.a, F1))]
Sub1(v, inds) == [i \in DOMAIN inds |-> v[inds[i]]]
Sub2(n, A, inds) == LET k == Len(inds) IN
  [t \in 1..(k*k) |-> A[(inds[((t-1) \div k) + 1] - 1)*n + inds[((t-1) % k) + 1]]]
LogGamma1(a, b, t) ==
  FSub(FAdd(FMul(a, FLog(b)), FMul(FSub(a, F1), FLog(t))), FAdd(FMul(b, t), FLgamma(a)))
GGMarginal(nd, ph, inds, gamma, x) ==
  LET g == GGOf(nd, ph)
      n == Prod(nd.S)
      k == Len(inds)
      mu == Sub1(g.mu, inds)
      C == Sub2(n, g.Cov, inds)
      y == VSub(SubSeq(x, 1, k), mu)
      q == VDot(y, MMul(k, k, 1, MInv(k, C), y))
      ld == MLogDet(k, C)
      t == x[Len(x)]
      hk == FRat(k, 2)
  IN  IF k = 0 THEN LogGamma1(g.a, g.b, t)
      ELSE IF gamma
      THEN FAdd(LogGamma1(g.a, g.b, t),
                FSub(FMul(hk, FSub(FLog(t), Log2Pi)), FMul(FHalf, FAdd(ld, FMul(t, q)))))
      ELSE \* the precision integrated out
           FAdd(FSub(FSub(FLgamma(FAdd(g.a, hk)), FLgamma(g.a)),
                     FAdd(FMul(hk, Log2Pi), FMul(FHalf, ld))),
                FSub(FMul(g.a, FLog(g.b)),
                     FMul(FAdd(g.a, hk), FLog(FAdd(g.b, FMul(FHalf, q))))))

(***************************************************************************)
(* Mixture: sum over the clusters of their weights times the density with  *)
(* the expected log parameters.                                            *)
(***************************************************************************)
Predict(b, M, n, e, x) ==
  LET nd == M[n]
      d == nd.d
      idx == UnFlat(nd.pl, e)
      f == Fix(DAt(nd, e), nd.S, x)
      z == At(b.us, M, nd.par[1], idx)[1]
      k0 == Len(idx) + d.cp + 2
      lk == [k \in DOMAIN z |->
               FAdd(FLog(z[k]), TD(b.us, M, d.inner, Tail(nd.par), InsAt(idx, k0, k-1), nd.S, f[1]))]
  IN  FAdd(FLogSumExp(lk), f[2])
=============================================================================
