------------------------------- MODULE Model --------------------------------
(***************************************************************************)
(* What a BayesPy model *means*: every node is an array of elements (its   *)
(* plates), every element of a stochastic node is one factor of the joint  *)
(* density.  Nothing here follows the message passing code: there are no   *)
(* messages, no broadcasting of arrays, no masks on arrays.  The module    *)
(* defines, element by element,                                            *)
(*                                                                         *)
(*   U(us, M, j, e)    the moments (expected sufficient statistics) of     *)
(*                     element e of node j, given the moments us of the    *)
(*                     stochastic nodes (deterministic nodes are computed  *)
(*                     from their parents by definition);                  *)
(*   T(us, M, i, e)    E log p(element e of node i | its parents), without *)
(*                     the base measure of the element;                    *)
(*   Mom(d, S, phi)    <<u, g>>: moments and log normaliser of the         *)
(*                     exponential family density h(x) exp(phi.u(x) + g);  *)
(*   Fix(d, S, x)      <<u, f>>: sufficient statistics and log h at x.     *)
(*                                                                         *)
(* T is affine in the moments of every single stochastic element (the      *)
(* parents of a node are independent), so the variational message passing  *)
(* equations are its coefficients: see VMP.tla.                            *)
(*                                                                         *)
(* A model M is a sequence of node records                                 *)
(*   [d |-> descriptor, par |-> parents, pl |-> plates, S |-> shape,       *)
(*    dims |-> shapes of the moments, mult |-> plates multiplier, ...]     *)
(***************************************************************************)
EXTENDS F64, Nd, TLC

IsConst(nd) == nd.cls = "const"
IsDet(nd)   == nd.cls = "det"
IsStoch(nd) == nd.cls = "stoch"
\* nodes that hold a point estimate in place of a distribution
IsPoint(nd) == nd.d.k \in {"GammaShape", "Concentration"}

NComp(nd) == Len(nd.dims)
CompLen(nd, k) == Prod(nd.dims[k])
ZeroMom(nd) == [k \in 1..NComp(nd) |-> VConst(CompLen(nd, k), F0)]
NaNMom(nd)  == [k \in 1..NComp(nd) |-> VConst(CompLen(nd, k), FNaN)]

\* innermost distribution of a (possibly nested) mixture descriptor
RECURSIVE Inner(_)
Inner(d) == IF d.k = "Mixture" THEN Inner(d.inner) ELSE d
\* the distribution of one element: numbers of trials may differ between the
\* elements (but not between the clusters of a mixture)
Counts(d) == d.k \in {"Binomial", "Multinomial"}
RECURSIVE DIdx(_, _)
DIdx(d, idx) ==
  IF d.k = "Mixture" THEN DIdx(d.inner, InsAt(idx, Len(idx) + d.cp + 2, 0))
  ELSE [d EXCEPT !.n = d.ns[BFlat(d.nsh, idx)]]
DAt(nd, e) == IF Counts(Inner(nd.d)) THEN DIdx(nd.d, UnFlat(nd.pl, e)) ELSE nd.d

(***************************************************************************)
(* Sufficient statistics at a fixed value x (a vector: the element's value *)
(* flattened), log base measure, by kind of moments.                       *)
(***************************************************************************)
OuterSelf(x) == VOuter(x, x)
SumLgamma(x) == VSum([i \in DOMAIN x |-> FLgamma(x[i])])

FixGMC(N, D, x) ==
  LET X(n) == SubSeq(x, (n-1)*D+1, n*D)
      RECURSIVE A(_) A(n) == IF n = 0 THEN <<>> ELSE A(n-1) \o OuterSelf(X(n))
      RECURSIVE B(_) B(n) == IF n = 0 THEN <<>> ELSE B(n-1) \o VOuter(X(n), X(n+1))
  IN  << <<x, A(N), B(N-1)>>, FMul(FRat(-N*D, 2), Log2Pi) >>

OneHot(n, r) == [k \in 1..n |-> IF FClose(FInt(k-1), r, F0, F0) THEN F1 ELSE F0]

FixCMC(N, K, x) ==   \* x: the N states of a path
  LET Z(n) == OneHot(K, x[n])
      RECURSIVE B(_) B(n) == IF n = 0 THEN <<>> ELSE B(n-1) \o VOuter(Z(n), Z(n+1))
  IN  << <<Z(1), B(N-1)>>, F0 >>

Fix(d0, S, x) ==
  LET d == Inner(d0)
      n == Len(x)
  IN CASE d.k \in {"Gaussian", "GaussianARD"} ->
            << <<x, OuterSelf(x)>>, FMul(FRat(-n, 2), Log2Pi) >>
       [] d.k = "Gamma" -> << << <<x[1]>>, <<FLog(x[1])>> >>, FNeg(FLog(x[1])) >>
       [] d.k = "Wishart" ->
            LET D == Prod(SubSeq(S, 1, Len(S) \div 2))
                ld == MLogDet(D, x)
            IN  << <<x, <<ld>> >>, FMul(FRat(-(D+1), 2), ld) >>
       [] d.k = "Dirichlet" ->
            LET lp == [i \in 1..n |-> FLog(x[i])] IN << <<lp>>, FNeg(VSum(lp)) >>
       [] d.k = "Beta" ->
            LET lp == <<FLog(x[1]), FLog(FSub(F1, x[1]))>> IN << <<lp>>, FNeg(VSum(lp)) >>
       [] d.k = "Categorical" -> << <<OneHot(d.K, x[1])>>, F0 >>
       [] d.k = "Bernoulli" -> << << <<x[1]>> >>, F0 >>
       [] d.k = "Binomial" ->
            << << <<x[1]>> >>,
               FSub(FLgamma(FAdd(FInt(d.n), F1)),
                    FAdd(FLgamma(FAdd(x[1], F1)), FLgamma(FAdd(FSub(FInt(d.n), x[1]), F1)))) >>
       [] d.k = "Multinomial" ->
            << <<x>>, FSub(FLgamma(FAdd(VSum(x), F1)), SumLgamma([i \in 1..n |-> FAdd(x[i], F1)])) >>
       [] d.k = "Poisson" -> << << <<x[1]>> >>, FNeg(FLgamma(FAdd(x[1], F1))) >>
       [] d.k = "GMC" -> FixGMC(d.N, d.D, x)
       [] d.k = "CMC" -> FixCMC(d.N, d.K, x)
       [] d.k = "GaussianGamma" ->       \* x = the vector followed by tau
            LET D == n - 1
                v == SubSeq(x, 1, D)
                t == x[n]
            IN  << <<VScale(t, v), VScale(t, OuterSelf(v)), <<t>>, <<FLog(t)>> >>,
                   FSub(FMul(FSub(FRat(D, 2), F1), FLog(t)), FMul(FRat(D, 2), Log2Pi)) >>
       \* moments of constants only
       [] d.k \in {"cGammaPrior", "GammaShape"} -> << << <<x[1]>>, <<FLgamma(x[1])>> >>, F0 >>
       [] d.k = "cWishartPrior" ->
            << << <<x[1]>>, <<FMultiLgamma(d.D, FMul(FHalf, x[1]))>> >>, F0 >>
       [] d.k \in {"cDirichletPrior", "Concentration"} ->
            << <<x, <<FSub(FLgamma(VSum(x)), SumLgamma(x))>> >>, F0 >>
       [] d.k = "cPoint" -> << <<x>>, F0 >>

(***************************************************************************)
(* Moments and log normaliser of the density with natural parameters phi.  *)
(***************************************************************************)
MomGaussian(n, phi) ==
  LET Lam == VSym(n, VScale(FInt(-2), phi[2]))
      Cov == MInv(n, Lam)
      mu  == MMul(n, n, 1, Cov, phi[1])
  IN  << <<mu, VAdd(Cov, VOuter(mu, mu))>>,
         FAdd(FMul(FRat(-1, 2), VDot(mu, phi[1])), FMul(FHalf, MLogDet(n, Lam))) >>

MomDirichlet(phi) ==
  LET s == VSum(phi) IN
  << <<[k \in DOMAIN phi |-> FSub(FDigamma(phi[k]), FDigamma(s))]>>,
     FSub(FLgamma(s), SumLgamma(phi)) >>

\* exact smoothing of a chain of N categorical states by summing over all paths
PathWeights(N, K, phi) ==
  LET sh == [i \in 1..N |-> K]
      P  == Prod(sh)
      path == TLCEval([p \in 1..P |-> UnFlat(sh, p)])
  IN  TLCEval([p \in 1..P |->
               FAdd(phi[1][path[p][1] + 1],
                    FSumTo(LAMBDA n : phi[2][(n-1)*K*K + path[p][n]*K + path[p][n+1] + 1], N-1))])
MomCMC(N, K, phi) ==
  LET sh == [i \in 1..N |-> K]
      P  == Prod(sh)
      path == TLCEval([p \in 1..P |-> UnFlat(sh, p)])
      lw == PathWeights(N, K, phi)
      lz == FLogSumExp(lw)
      w  == TLCEval([p \in 1..P |-> FExp(FSub(lw[p], lz))])
      PSum(Sel(_)) == VSum([p \in 1..P |-> IF Sel(path[p]) THEN w[p] ELSE F0])
  IN  << << [k \in 1..K |-> PSum(LAMBDA s : s[1] = k-1)],
            [t \in 1..((N-1)*K*K) |->
               LET ix == UnFlat(<<N-1, K, K>>, t)
               IN  PSum(LAMBDA s : s[ix[1]+1] = ix[2] /\ s[ix[1]+2] = ix[3])] >>,
         FNeg(lz) >>

\* exact smoothing of a Gaussian chain by inverting the joint precision matrix
GMCPrec(N, D, phi) ==
  LET W == N*D IN
  [t \in 1..(W*W) |->
     LET i == ((t-1) \div W)
         j == ((t-1) % W)
         n == i \div D
         m == j \div D
         a == i % D
         b == j % D
     IN  IF n = m
         THEN FNeg(FAdd(phi[2][n*D*D + a*D + b + 1], phi[2][n*D*D + b*D + a + 1]))
         ELSE IF m = n + 1 THEN FNeg(phi[3][n*D*D + a*D + b + 1])
         ELSE IF n = m + 1 THEN FNeg(phi[3][m*D*D + b*D + a + 1])
         ELSE F0]

MomGMC(N, D, phi) ==
  LET W   == N*D
      Lam == TLCEval(GMCPrec(N, D, phi))
      Cov == MInv(W, Lam)
      mu  == MMul(W, W, 1, Cov, phi[1])
      XX(i, j) == FAdd(Cov[i*W + j + 1], FMul(mu[i+1], mu[j+1]))
  IN  << << mu,
            [t \in 1..(N*D*D) |-> LET ix == UnFlat(<<N, D, D>>, t)
                                  IN  XX(ix[1]*D + ix[2], ix[1]*D + ix[3])],
            [t \in 1..((N-1)*D*D) |-> LET ix == UnFlat(<<N-1, D, D>>, t)
                                      IN  XX(ix[1]*D + ix[2], (ix[1]+1)*D + ix[3])] >>,
         FAdd(FMul(FRat(-1, 2), VDot(mu, phi[1])), FMul(FHalf, MLogDet(W, Lam))) >>

Mom(d0, S, phi) ==
  LET d == Inner(d0)
  IN CASE d.k \in {"Gaussian", "GaussianARD"} -> MomGaussian(Prod(S), phi)
       [] d.k = "Gamma" ->
            LET a == phi[2][1]
                b == FNeg(phi[1][1])
            IN  << << <<FDiv(a, b)>>, <<FSub(FDigamma(a), FLog(b))>> >>,
                   FSub(FMul(a, FLog(b)), FLgamma(a)) >>
       [] d.k = "Wishart" ->
            LET D == S[1]
                W == VSym(D, VNeg(phi[1]))
                h == phi[2][1]
                ld == MLogDet(D, W)
            IN  << <<VScale(h, MInv(D, W)), <<FSub(FMultiDigamma(D, h), ld)>> >>,
                   FSub(FMul(h, ld), FMultiLgamma(D, h)) >>
       [] d.k \in {"Dirichlet", "Beta"} -> MomDirichlet(phi[1])
       [] d.k = "Categorical" ->
            LET lz == FLogSumExp(phi[1]) IN
            << <<[k \in DOMAIN phi[1] |-> FExp(FSub(phi[1][k], lz))]>>, FNeg(lz) >>
       [] d.k \in {"Bernoulli", "Binomial"} ->
            LET n == IF d.k = "Binomial" THEN d.n ELSE 1
                lz == FLogSumExp(<<F0, phi[1][1]>>)
            IN  << << <<FMul(FInt(n), FExp(FSub(phi[1][1], lz)))>> >>, FMul(FInt(-n), lz) >>
       [] d.k = "Multinomial" ->
            LET lz == FLogSumExp(phi[1]) IN
            << <<[k \in DOMAIN phi[1] |-> FMul(FInt(d.n), FExp(FSub(phi[1][k], lz)))]>>,
               FMul(FInt(-d.n), lz) >>
       [] d.k = "Poisson" ->
            LET r == FExp(phi[1][1]) IN << << <<r>> >>, FNeg(r) >>
       [] d.k = "GMC" -> MomGMC(d.N, d.D, phi)
       [] d.k = "CMC" -> MomCMC(d.N, d.K, phi)
       [] d.k = "GaussianGamma" ->
            LET n   == Prod(S)
                Lam == VSym(n, VScale(FInt(-2), phi[2]))
                Cov == MInv(n, Lam)
                mu  == MMul(n, n, 1, Cov, phi[1])
                a   == phi[4][1]
                b   == FSub(FNeg(phi[3][1]), FMul(FHalf, VDot(mu, phi[1])))
                t   == FDiv(a, b)
            IN  << <<VScale(t, mu), VAdd(Cov, VScale(t, VOuter(mu, mu))), <<t>>,
                     <<FSub(FDigamma(a), FLog(b))>> >>,
                   FAdd(FMul(FHalf, MLogDet(n, Lam)), FSub(FMul(a, FLog(b)), FLgamma(a))) >>

(***************************************************************************)
(* Reading a parent.  idx is the plate index the child presents to the     *)
(* parent; it is right-aligned with, and may be longer than, the parent's  *)
(* plates, and unit plates answer for every position.                      *)
(***************************************************************************)
RECURSIVE U(_, _, _, _)

At(us, M, j, idx) == U(us, M, j, BFlat(M[j].pl, idx))

\* Gaussian arrays: plates and variable axes form one array; `full` is an
\* index into it.  Several axes of the array may be variable axes (entries of
\* one random array, correlated) and the others plates (independent).
GSplit(nd, full) ==
  LET q  == Len(nd.dims[1])
      lf == Len(full)
  IN  [e |-> BFlat(nd.pl, SubSeq(full, 1, lf - q)),
       c |-> BFlat(nd.dims[1], SubSeq(full, lf - q + 1, lf))]
GX(us, M, j, full) ==
  LET s == GSplit(M[j], full) IN U(us, M, j, s.e)[1][s.c]
GXX(us, M, j, fa, fb) ==
  LET sa == GSplit(M[j], fa)
      sb == GSplit(M[j], fb)
  IN  IF sa.e = sb.e
      THEN U(us, M, j, sa.e)[2][(sa.c - 1) * Prod(M[j].dims[1]) + sb.c]
      ELSE FMul(U(us, M, j, sa.e)[1][sa.c], U(us, M, j, sb.e)[1][sb.c])

IsGG(nd) == Len(nd.dims) = 4      \* Gaussian-gamma moments

\* A pair (mean, precision) seen at the scalar position `full`:
\* <<E a*m, E a*m*m, E a, E log a>>
MuAlpha(us, M, d, par, full) ==
  LET a == At(us, M, par[2], full)
      j == par[1]
      s == GSplit(M[j], full)
      u == U(us, M, j, s.e)
      x == u[1][s.c]
      xx == u[2][(s.c - 1) * Prod(M[j].dims[1]) + s.c]
  IN  IF IsGG(M[j])      \* the mean brings a precision of its own
      THEN <<FMul(a[1][1], x), FMul(a[1][1], xx), FMul(a[1][1], u[3][1]), FAdd(a[2][1], u[4][1])>>
      ELSE <<FMul(a[1][1], x), FMul(a[1][1], xx), a[1][1], a[2][1]>>

\* A pair (mean vector, precision matrix) at plate idx:
\* <<E L m, E m'Lm, E L, E log|L|>>
MuLambda(us, M, d, par, idx, D) ==
  LET \* joint moments of (x, alpha): <<alpha x, alpha xx, alpha, log alpha>>,
      \* or those of a vector x that is one element
      one == d.whole
      gg == IF one THEN At(us, M, par[1], idx) ELSE <<>>
      x  == IF one THEN gg[1] ELSE [c \in 1..D |-> GX(us, M, par[1], idx \o <<c-1>>)]
      xx == IF one THEN gg[2]
            ELSE [t \in 1..(D*D) |-> GXX(us, M, par[1], idx \o <<(t-1) \div D>>, idx \o <<(t-1) % D>>)]
      L  == At(us, M, par[2], idx)
      al == IF d.gg THEN gg[3][1] ELSE F1
      la == IF d.gg THEN gg[4][1] ELSE F0
  IN  << MMul(D, D, 1, L[1], x), VDot(L[1], xx), VScale(al, L[1]), FAdd(L[2][1], FMul(FInt(D), la)) >>

(***************************************************************************)
(* E log p of one element with own moments m, given its parents.           *)
(***************************************************************************)
TGaussianML(ml, D, x, xx) ==
  FAdd(FSub(VDot(ml[1], x), FMul(FHalf, VDot(ml[3], xx))),
       FMul(FHalf, FSub(ml[4], ml[2])))

RECURSIVE TD(_, _, _, _, _, _, _)

\* transition coefficients of a Gaussian chain at step n (0-based), row r:
\* <<E nu*a, E nu*a*a', E nu, E log nu>> with a the row of [A, B]
Dyn(us, M, d, par, idx, n, r) ==
  LET full == idx \o <<n, r>>
      D  == d.D
      nu == At(us, M, par[4], full)
      W  == D + d.Din
      A(c) == GX(us, M, par[3], full \o <<c>>)
      AA(c, b) == GXX(us, M, par[3], full \o <<c>>, full \o <<b>>)
      \* time-varying mixture of matrices: a = sum_k s_k B[r,:,k]
      K == d.Kmix
      s == CASE d.dyn = "varying" -> TLCEval([k \in 1..K |-> GX(us, M, par[5], idx \o <<n, k-1>>)])
             [] OTHER -> <<>>
      \* S is read per time step; its second moments
      ss == CASE d.dyn = "varying" ->
                   TLCEval([t \in 1..(K*K) |-> GXX(us, M, par[5], idx \o <<n, (t-1) \div K>>,
                                                                  idx \o <<n, (t-1) % K>>)])
              [] OTHER -> <<>>
      Bv(c, k) == GX(us, M, par[3], idx \o <<r, c, k>>)
      BBv(c, k, b, l) == GXX(us, M, par[3], idx \o <<r, c, k>>, idx \o <<r, b, l>>)
      z == CASE d.dyn = "switching" -> At(us, M, par[5], idx \o <<n>>)[1] [] OTHER -> <<>>
      Bs(c, k) == GX(us, M, par[3], idx \o <<k, r, c>>)
      BBs(c, b, k) == GXX(us, M, par[3], idx \o <<k, r, c>>, idx \o <<k, r, b>>)
      gg == IF d.gg2 THEN At(us, M, par[3], full) ELSE <<>>
  IN  CASE d.dyn = "plain" /\ d.gg2 -> <<gg[1], gg[2], gg[3][1], gg[4][1]>>
        [] d.dyn = "plain" ->
             <<[c \in 1..W |-> FMul(nu[1][1], A(c-1))],
               [t \in 1..(W*W) |-> FMul(nu[1][1], AA((t-1) \div W, (t-1) % W))], nu[1][1], nu[2][1]>>
        [] d.dyn = "varying" ->
             <<[c \in 1..D |-> FMul(nu[1][1], FSumTo(LAMBDA k : FMul(s[k], Bv(c-1, k-1)), K))],
               [t \in 1..(D*D) |->
                  FMul(nu[1][1],
                    FSumTo(LAMBDA q : FMul(ss[q], BBv((t-1) \div D, (q-1) \div K,
                                                      (t-1) % D, (q-1) % K)), K*K))],
               nu[1][1], nu[2][1]>>
        [] d.dyn = "switching" ->
             <<[c \in 1..D |-> FMul(nu[1][1], FSumTo(LAMBDA k : FMul(z[k], Bs(c-1, k-1)), K))],
               [t \in 1..(D*D) |->
                  FMul(nu[1][1],
                    FSumTo(LAMBDA k : FMul(z[k], BBs((t-1) \div D, (t-1) % D, k-1)), K))],
               nu[1][1], nu[2][1]>>

TGMC(us, M, d, par, idx, m) ==
  LET N == d.N
      D == d.D
      ml == MuLambda(us, M, d, par, idx, D)
      x(n) == SubSeq(m[1], n*D + 1, (n+1)*D)
      xx(n) == SubSeq(m[2], n*D*D + 1, (n+1)*D*D)
      xpn(n) == SubSeq(m[3], n*D*D + 1, (n+1)*D*D)     \* E x_n x_{n+1}'
      Din == d.Din
      W == D + Din
      zu(n, c) == GX(us, M, par[5], idx \o <<n, c>>)
      zzu(n, c, b) == GXX(us, M, par[5], idx \o <<n, c>>, idx \o <<n, b>>)
      step(n, r) ==
        LET y == Dyn(us, M, d, par, idx, n, r)
            \* E (x_n, z_n)_c x_{n+1,r} and E (x_n,z_n)_c (x_n,z_n)_b
            px == [c \in 1..W |-> IF c <= D THEN xpn(n)[(c-1)*D + r + 1]
                                  ELSE FMul(zu(n, c-D-1), x(n+1)[r+1])]
            pp == [t \in 1..(W*W) |->
                     LET c == ((t-1) \div W) + 1
                         b == ((t-1) % W) + 1
                     IN  IF c <= D /\ b <= D THEN xx(n)[(c-1)*D + b]
                         ELSE IF c <= D THEN FMul(x(n)[c], zu(n, b-D-1))
                         ELSE IF b <= D THEN FMul(zu(n, c-D-1), x(n)[b])
                         ELSE zzu(n, c-D-1, b-D-1)]
            sq == FAdd(FSub(FMul(y[3], xx(n+1)[r*D + r + 1]), FMul(FInt(2), VDot(y[1], px))),
                       VDot(y[2], pp))
        IN  FMul(FHalf, FSub(y[4], sq))
  IN  FAdd(TGaussianML(ml, D, x(0), xx(0)),
           FSumTo(LAMBDA t : step((t-1) \div D, (t-1) % D), (N-1)*D))

TD(us, M, d, par, idx, S, m) ==
  CASE d.k = "GaussianARD" ->
         LET n == Prod(S) IN
         FSumTo(LAMBDA c :
           LET y == MuAlpha(us, M, d, par, idx \o UnFlat(S, c))
           IN  FAdd(FSub(FMul(y[1], m[1][c]), FMul(FHalf, FMul(y[3], m[2][(c-1)*n + c]))),
                    FMul(FHalf, FSub(y[4], y[2]))), n)
    [] d.k = "Gaussian" -> TGaussianML(MuLambda(us, M, d, par, idx, Prod(S)), Prod(S), m[1], m[2])
    [] d.k = "Gamma" ->
         LET a == At(us, M, par[1], idx)
             b == At(us, M, par[2], idx)
         IN  FAdd(FSub(FMul(a[1][1], m[2][1]), FMul(b[1][1], m[1][1])),
                  FSub(FMul(a[1][1], b[2][1]), a[2][1]))
    [] d.k = "Wishart" ->
         LET n == At(us, M, par[1], idx)
             V == At(us, M, par[2], idx)
             D == S[1]
             h == FMul(FHalf, n[1][1])
         IN  FAdd(FSub(FMul(h, m[2][1]), FMul(FHalf, VDot(V[1], m[1]))),
                  FSub(FMul(h, FSub(V[2][1], FMul(FInt(D), FLog(FInt(2))))), n[2][1]))
    [] d.k \in {"Dirichlet", "Beta"} ->
         LET a == At(us, M, par[1], idx) IN FAdd(VDot(a[1], m[1]), a[2][1])
    [] d.k = "Categorical" -> VDot(At(us, M, par[1], idx)[1], m[1])
    [] d.k = "Bernoulli" ->
         LET p == At(us, M, par[1], idx)[1]
         IN  FAdd(FMul(m[1][1], p[1]), FMul(FSub(F1, m[1][1]), p[2]))
    [] d.k = "Binomial" ->
         LET p == At(us, M, par[1], idx)[1]
         IN  FAdd(FMul(m[1][1], p[1]), FMul(FSub(FInt(d.ns[BFlat(d.nsh, idx)]), m[1][1]), p[2]))
    [] d.k = "Multinomial" -> VDot(At(us, M, par[1], idx)[1], m[1])
    [] d.k = "Poisson" ->
         LET r == At(us, M, par[1], idx) IN FSub(FMul(m[1][1], r[2][1]), r[1][1])
    [] d.k = "GammaShape" ->          \* a point: no density, but a penalty
         LET c == At(us, M, par[1], idx)[1] IN FAdd(FMul(c[1], m[1][1]), FMul(c[2], m[2][1]))
    [] d.k = "Concentration" ->
         LET c == At(us, M, par[1], idx)[1]
             n == Len(m[1])
         IN  FAdd(VDot(SubSeq(c, 1, n), m[1]), FMul(c[n+1], m[2][1]))
    [] d.k = "CMC" ->
         LET p0 == At(us, M, par[1], idx)[1]
             row(n, i) == At(us, M, par[2], idx \o <<n, i>>)[1]
         IN  FAdd(VDot(p0, m[1]),
                  FSumTo(LAMBDA t :
                    LET n == (t-1) \div d.K
                        i == (t-1) % d.K
                    IN  VDot(row(n, i), SubSeq(m[2], n*d.K*d.K + i*d.K + 1, n*d.K*d.K + (i+1)*d.K)),
                    (d.N-1)*d.K))
    [] d.k = "GMC" -> TGMC(us, M, d, par, idx, m)
    [] d.k = "GaussianGamma" ->
         LET n == Prod(S)
             ml == MuLambda(us, M, d, par, idx, n)
             a == At(us, M, par[3], idx)
             b == At(us, M, par[4], idx)
         IN  FAdd(FAdd(FSub(VDot(ml[1], m[1]), FMul(FHalf, VDot(ml[3], m[2]))),
                       FSub(FMul(FHalf, ml[4]), FMul(FHalf, FMul(m[3][1], ml[2])))),
                  FAdd(FSub(FMul(a[1][1], m[4][1]), FMul(b[1][1], m[3][1])),
                       FSub(FMul(a[1][1], b[2][1]), a[2][1])))
    [] d.k = "Mixture" ->
         \* the parents of the mixed distribution have one more plate axis, the
         \* cluster axis, at position cp (negative, from the right)
         LET z == At(us, M, par[1], idx)[1]
             k0 == Len(idx) + d.cp + 2
         IN  FSumTo(LAMBDA k :
               LET w == TD(us, M, d.inner, Tail(par), InsAt(idx, k0, k-1), S, m)
               IN  FMul(z[k], w), Len(z))

T(us, M, i, e) ==
  LET nd == M[i]
  IN  TD(us, M, nd.d, nd.par, UnFlat(nd.pl, e), nd.S, us[i][e])

(***************************************************************************)
(* Deterministic nodes                                                     *)
(***************************************************************************)
\* where an element of a structural node comes from: <<parent number, index>>
\* -- basic indexing: a list of items [t|->"int",i] [t|->"slice",start,step]
\*    [t|->"new"]; the items consume the parent's plates from the left
RECURSIVE SliceIdx(_, _)
SliceIdx(items, idx) ==
  IF items = <<>> THEN <<>>
  ELSE LET h == Head(items) IN
       CASE h.t = "int" -> <<h.i>> \o SliceIdx(Tail(items), idx)
         [] h.t = "new" -> SliceIdx(Tail(items), Tail(idx))
         [] h.t = "slice" -> <<h.i + Head(idx) * h.step>> \o SliceIdx(Tail(items), Tail(idx))

RECURSIVE ConcatPos(_, _, _, _)
ConcatPos(M, par, ax, v) ==     \* <<parent number, position>> along axis -ax
  LET n == M[par[1]].pl[Len(M[par[1]].pl) - ax + 1]
  IN  IF v < n THEN <<1, v>>
      ELSE LET r == ConcatPos(M, Tail(par), ax, v - n) IN <<r[1] + 1, r[2]>>

Src(M, nd, idx) ==
  CASE nd.d.k = "getitem" -> <<1, SliceIdx(nd.d.items, idx)>>
    [] nd.d.k = "take" ->
         \* the axis of the parent is replaced by the axes of the index array
         LET n  == Len(nd.d.ish)
             ax == nd.d.axis         \* number of plates right of the taken axis
             L  == Len(idx)
             sel == SubSeq(idx, L - ax - n + 1, L - ax)
         IN  <<1, SubSeq(idx, 1, L - ax - n)
                  \o <<nd.d.ind[BFlat(nd.d.ish, sel)]>> \o SubSeq(idx, L - ax + 1, L)>>
    [] nd.d.k = "concat" ->
         LET k == Len(idx) - nd.d.axis + 1
             r == ConcatPos(M, nd.par, nd.d.axis, idx[k])
         IN  <<r[1], [idx EXCEPT ![k] = r[2]]>>
    [] nd.d.k = "tile" ->
         LET p == M[nd.par[1]].pl IN
         <<1, [i \in 1..Len(p) |-> idx[Len(idx) - Len(p) + i] % p[i]]>>

IsStruct(nd) == nd.d.k \in {"getitem", "take", "concat", "tile"}

\* sum-product of Gaussian arrays with labelled axes
SumMul(us, M, nd, idx) ==
  LET P == Len(nd.par)
      allk == nd.d.allkeys
      ksh == nd.d.ksizes
      n == Prod(ksh)
      asg == TLCEval([t \in 1..n |-> UnFlat(ksh, t)])
      pos(k) == CHOOSE i \in 1..Len(allk) : allk[i] = k
      kpos == TLCEval([p \in 1..P |-> [i \in 1..Len(nd.d.keys[p]) |-> pos(nd.d.keys[p][i])]])
      opos == TLCEval([i \in 1..Len(nd.d.out) |-> pos(nd.d.out[i])])
      sel(p, t) == [i \in 1..Len(kpos[p]) |-> asg[t][kpos[p][i]]]
      gg(p) == IsGG(M[nd.par[p]])
      \* E of the product of the parents' entries at assignment t
      x1(p, t) == IF gg(p) THEN LET s == GSplit(M[nd.par[p]], idx \o sel(p, t))
                                IN  U(us, M, nd.par[p], s.e)[1][s.c]
                  ELSE GX(us, M, nd.par[p], idx \o sel(p, t))
      x2(p, t, r) == IF gg(p)
                     THEN LET sa == GSplit(M[nd.par[p]], idx \o sel(p, t))
                              sb == GSplit(M[nd.par[p]], idx \o sel(p, r))
                          IN  U(us, M, nd.par[p], sa.e)[2][(sa.c-1)*Prod(M[nd.par[p]].dims[1]) + sb.c]
                     ELSE GXX(us, M, nd.par[p], idx \o sel(p, t), idx \o sel(p, r))
      RECURSIVE P1(_, _) P1(p, t) == IF p = 0 THEN F1 ELSE FMul(P1(p-1, t), x1(p, t))
      RECURSIVE P2(_, _, _) P2(p, t, r) == IF p = 0 THEN F1 ELSE FMul(P2(p-1, t, r), x2(p, t, r))
      osh == nd.dims[1]
      O == Prod(osh)
      outOf(t) == BFlat(osh, [i \in 1..Len(opos) |-> asg[t][opos[i]]])
      oo == TLCEval([t \in 1..n |-> outOf(t)])
      v1 == TLCEval([t \in 1..n |-> P1(P, t)])
      v2 == TLCEval([q \in 1..(n*n) |-> P2(P, ((q-1) \div n) + 1, ((q-1) % n) + 1)])
      xm == [c \in 1..O |-> VSum([t \in 1..n |-> IF oo[t] = c THEN v1[t] ELSE F0])]
      xxm == [c \in 1..(O*O) |->
                 LET a == ((c-1) \div O) + 1
                     b == ((c-1) % O) + 1
                 IN  VSum([q \in 1..(n*n) |->
                        IF oo[((q-1) \div n) + 1] = a /\ oo[((q-1) % n) + 1] = b THEN v2[q] ELSE F0])]
      ggs == {p \in 1..P : gg(p)}
      RECURSIVE PT(_) PT(p) == IF p = 0 THEN F1
                               ELSE IF gg(p) THEN FMul(PT(p-1), At(us, M, nd.par[p], idx)[3][1]) ELSE PT(p-1)
      RECURSIVE PL(_) PL(p) == IF p = 0 THEN F0
                               ELSE IF gg(p) THEN FAdd(PL(p-1), At(us, M, nd.par[p], idx)[4][1]) ELSE PL(p-1)
  IN  IF ggs = {} THEN <<xm, xxm>> ELSE <<xm, xxm, <<PT(P)>>, <<PL(P)>> >>

AddMom(us, M, nd, idx) ==
  LET P == Len(nd.par)
      r == Len(nd.dims[1])
      n == Prod(nd.dims[1])
      full(c) == idx \o UnFlat(nd.dims[1], c)
      x(p) == [c \in 1..n |-> GX(us, M, nd.par[p], full(c))]
      xx(p) == [t \in 1..(n*n) |-> GXX(us, M, nd.par[p], full(((t-1) \div n) + 1), full(((t-1) % n) + 1))]
      X == TLCEval([p \in 1..P |-> x(p)])
      RECURSIVE S1(_) S1(p) == IF p = 1 THEN X[1] ELSE VAdd(S1(p-1), X[p])
      RECURSIVE S2(_)
      S2(p) == IF p = 0 THEN VConst(n*n, F0)
               ELSE LET others == VSub(S1(P), X[p])
                    IN  VAdd(VAdd(S2(p-1), xx(p)), VOuter(X[p], others))
  IN  <<S1(P), S2(P)>>

ConcatMom(us, M, nd, idx) ==
  LET P == Len(nd.par)
      D(p) == M[nd.par[p]].dims[1][Len(M[nd.par[p]].dims[1])]
      RECURSIVE Off(_) Off(p) == IF p = 1 THEN 0 ELSE Off(p-1) + D(p-1)
      n == nd.dims[1][1]
      who(c) == CHOOSE p \in 1..P : Off(p) < c /\ c <= Off(p) + D(p)
      loc(c) == c - Off(who(c)) - 1
      x == TLCEval([c \in 1..n |-> GX(us, M, nd.par[who(c)], idx \o <<loc(c)>>)])
  IN  <<x, [t \in 1..(n*n) |->
             LET a == ((t-1) \div n) + 1
                 b == ((t-1) % n) + 1
             IN  IF who(a) = who(b)
                 THEN GXX(us, M, nd.par[who(a)], idx \o <<loc(a)>>, idx \o <<loc(b)>>)
                 ELSE FMul(x[a], x[b])]>>

GateMom(us, M, nd, idx) ==
  LET z == At(us, M, nd.par[1], idx)[1]
      k0 == Len(idx) + nd.d.gp + 2
      K == Len(z)
      x == TLCEval([k \in 1..K |-> At(us, M, nd.par[2], InsAt(idx, k0, k-1))])
      RECURSIVE Acc(_, _)
      Acc(c, k) == IF k = 0 THEN VConst(CompLen(nd, c), F0)
                   ELSE VAdd(Acc(c, k-1), VScale(z[k], x[k][c]))
  IN  [c \in 1..NComp(nd) |-> Acc(c, K)]

ChooseMom(us, M, nd, idx) ==
  LET z == At(us, M, nd.par[1], idx)[1]
      K == Len(z)
      RECURSIVE Acc(_, _)
      Acc(c, k) == IF k = 0 THEN VConst(CompLen(nd, c), F0)
                   ELSE VAdd(Acc(c, k-1), VScale(z[k], At(us, M, nd.par[k+1], idx)[c]))
  IN  [c \in 1..NComp(nd) |-> Acc(c, K)]

U(us, M, j, e) ==
  LET nd == M[j] IN
  IF ~IsDet(nd) THEN us[j][e]
  ELSE LET idx == UnFlat(nd.pl, e) IN
    CASE IsStruct(nd) -> LET s == Src(M, nd, idx) IN At(us, M, nd.par[s[1]], s[2])
      [] nd.d.k = "add" -> AddMom(us, M, nd, idx)
      [] nd.d.k = "summul" -> SumMul(us, M, nd, idx)
      [] nd.d.k = "concatgaussian" -> ConcatMom(us, M, nd, idx)
      [] nd.d.k = "gate" -> GateMom(us, M, nd, idx)
      [] nd.d.k = "choose" -> ChooseMom(us, M, nd, idx)
      [] nd.d.k = "cmc2cat" ->
           LET n == idx[Len(idx)]
               u == At(us, M, nd.par[1], FrontN(idx, 1))
               K == nd.d.K
           IN  << IF n = 0 THEN u[1]
                  ELSE [k \in 1..K |-> FSumTo(LAMBDA i : u[2][(n-1)*K*K + (i-1)*K + k], K)] >>
      [] nd.d.k = "gmc2g" ->
           LET n == idx[Len(idx)]
               u == At(us, M, nd.par[1], FrontN(idx, 1))
               D == nd.d.D
           IN  <<SubSeq(u[1], n*D+1, (n+1)*D), SubSeq(u[2], n*D*D+1, (n+1)*D*D)>>
      [] nd.d.k = "complement" ->
           LET u == At(us, M, nd.par[1], idx) IN << <<u[1][2], u[1][1]>> >>
      [] nd.d.k = "scalewishart" ->
           LET L == At(us, M, nd.par[1], idx)
               a == At(us, M, nd.par[2], idx)
           IN  <<VScale(a[1][1], L[1]), <<FAdd(L[2][1], FMul(FInt(nd.dims[1][1]), a[2][1]))>> >>
      [] nd.d.k = "gamma2wishart" ->
           LET D == nd.dims[1][1]
               g(c) == At(us, M, nd.par[1], idx \o <<c-1>>)
           IN  <<[t \in 1..(D*D) |-> IF (t-1) \div D = (t-1) % D THEN g(((t-1) % D) + 1)[1][1] ELSE F0],
                 <<FSumTo(LAMBDA c : g(c)[2][1], D)>> >>
      \* Gaussian array seen with fewer variable axes: the extra ones are plates
      [] nd.d.k = "regauss" ->
           LET n == Prod(nd.dims[1])
               full(c) == idx \o UnFlat(nd.dims[1], c)
           IN  <<[c \in 1..n |-> GX(us, M, nd.par[1], full(c))],
                 [t \in 1..(n*n) |-> GXX(us, M, nd.par[1], full(((t-1) \div n) + 1), full(((t-1) % n) + 1))]>>
=============================================================================
