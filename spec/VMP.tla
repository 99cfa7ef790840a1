--------------------------------- MODULE VMP ----------------------------------
(***************************************************************************)
(* Variational Bayesian inference as a state machine over a model M        *)
(* (module Model).  The state is the fully factorised posterior            *)
(* approximation: one distribution per stochastic node element, given by   *)
(* its moments, natural parameters, log normaliser, and what is observed.  *)
(*                                                                         *)
(* Each public operation of the library is one transition, written here    *)
(* from the mathematics -- coordinate optimum of the evidence lower bound  *)
(* -- and not from the message passing code: the natural parameters of the *)
(* optimum are the coefficients of the moments of the updated element in   *)
(* the expected log joint density.                                         *)
(*                                                                         *)
(* A state is a record s with, for every node n and element e,             *)
(*   us[n][e]  moments            ph[n][e]  natural parameters of q        *)
(*   gs[n][e]  log normaliser     fs[n][e]  log base measure (observed)    *)
(*   ob[n][e]  observed?          ok[n][e]  us is the moments of the q     *)
(*                                          given by ph (or an observation)*)
(*   an[n]     annealing coefficient                                       *)
(***************************************************************************)
EXTENDS Model, SequencesExt

N1(M) == 1..Len(M)
StochOf(M) == {n \in N1(M) : IsStoch(M[n])}
El(M, n) == Elems(M[n].pl)

(***************************************************************************)
(* Static structure: which factors mention which element.                  *)
(***************************************************************************)
\* stochastic nodes whose density reads node j (through deterministic nodes)
RECURSIVE StochKids(_, _)
StochKids(M, j) ==
  LET kids == {c \in N1(M) : \E p \in DOMAIN M[c].par : M[c].par[p] = j}
  IN  {c \in kids : IsStoch(M[c])} \cup
      UNION {StochKids(M, c) : c \in {k \in kids : IsDet(M[k])}}

DummyU(M) ==
  TLCEval([n \in N1(M) |->
     IF IsStoch(M[n])
     THEN [e \in El(M, n) |-> [k \in 1..NComp(M[n]) |-> VConst(CompLen(M[n], k), F1)]]
     ELSE IF IsConst(M[n]) THEN M[n].u ELSE <<>>])

\* T mentions element e of node n iff poisoning that element poisons T
Deps(M) ==
  LET us == DummyU(M) IN
  TLCEval([n \in N1(M) |->
    IF ~IsStoch(M[n]) THEN <<>>
    ELSE LET kids == StochKids(M, n) IN
      [e \in El(M, n) |->
         LET bad == [us EXCEPT ![n][e] = NaNMom(M[n])]
         IN  {ce \in UNION {{c} \X El(M, c) : c \in kids} :
                 FIsNaN(T(bad, M, ce[1], ce[2]))}]])

(***************************************************************************)
(* Masks: an element takes part if it is observed or if some element that  *)
(* depends on it takes part.  (Everything else is missing data.)           *)
(***************************************************************************)
RECURSIVE Live(_, _, _, _)
Live(D, ob, n, e) == ob[n][e] \/ \E ce \in D[n][e] : Live(D, ob, ce[1], ce[2])
LiveAll(M, D, ob) ==
  TLCEval([n \in N1(M) |-> IF IsStoch(M[n]) THEN [e \in El(M, n) |-> Live(D, ob, n, e)] ELSE <<>>])

(***************************************************************************)
(* Coefficients of the moments of one element in a function of the state   *)
(* that is affine in them.                                                 *)
(***************************************************************************)
\* weight of a child's factor in its parent's update (minibatches)
Weight(M, c, n) == FDiv(M[c].w, M[n].w)

\* factors that take part in the update of (n, e): the own prior, and all
\* dependent factors that take part in the model
SumT(us, M, n, e, D, live) ==
  LET own == T(us, M, n, e)
      S == {ce \in D[n][e] : live[ce[1]][ce[2]]}
      seq == SetToSeq(S)
  IN  FAdd(own, FSumTo(LAMBDA i : FMul(Weight(M, seq[i][1], n),
                                         T(us, M, seq[i][1], seq[i][2])), Len(seq)))

CoefOf(us, M, n, e, F(_)) ==
  LET nd == M[n]
      z  == ZeroMom(nd)
      With(m) == [us EXCEPT ![n][e] = m]
      f0 == F(With(z))
  IN  TLCEval([k \in 1..NComp(nd) |->
         [c \in 1..CompLen(nd, k) |->
            FSub(F(With([z EXCEPT ![k] = VUnit(CompLen(nd, k), c)])), f0)]])

\* A node may be given a bias, a constant added to its prior's natural
\* parameters; it regularises q and is no part of the lower bound.
Biased(nd, e, m) == IF nd.bias = <<>> THEN m ELSE [k \in DOMAIN m |-> VAdd(m[k], nd.bias[e][k])]
PostCoef(us, M, n, e, D, live) ==
  Biased(M[n], e, CoefOf(us, M, n, e, LAMBDA v : SumT(v, M, n, e, D, live)))
PriorCoef(us, M, n, e) == Biased(M[n], e, CoefOf(us, M, n, e, LAMBDA v : T(v, M, n, e)))

\* Natural parameters are compared modulo the antisymmetric part of matrix
\* blocks, which multiplies nothing.
SymBlocks(n, b, v) ==      \* v: b blocks of n x n
  [t \in 1..(b*n*n) |->
     LET k == (t-1) \div (n*n)
         r == ((t-1) % (n*n)) \div n
         c == (t-1) % n
     IN  FMul(FHalf, FAdd(v[k*n*n + r*n + c + 1], v[k*n*n + c*n + r + 1]))]
\* ... and modulo constants added to the log weights of categories, of which
\* exactly one (or a fixed number) is drawn
Shift0(v) == LET x == VMax(v) IN IF FIsFin(x) THEN [i \in DOMAIN v |-> FSub(v[i], x)] ELSE v
RECURSIVE ShiftBlocks(_, _)
ShiftBlocks(n, v) ==
  IF v = <<>> THEN <<>> ELSE Shift0(SubSeq(v, 1, n)) \o ShiftBlocks(n, SubSeq(v, n+1, Len(v)))
Canon(nd, phi) ==
  LET d == Inner(nd.d) IN
  CASE d.k \in {"Categorical", "Multinomial"} -> <<Shift0(phi[1])>>
    [] d.k = "CMC" -> <<Shift0(phi[1]), ShiftBlocks(d.K * d.K, phi[2])>>
    [] d.k \in {"Gaussian", "GaussianARD", "GaussianGamma"} ->
         [phi EXCEPT ![2] = VSym(Prod(nd.S), phi[2])]
    [] d.k = "Wishart" -> [phi EXCEPT ![1] = VSym(nd.S[1], phi[1])]
    [] d.k = "GMC" -> [phi EXCEPT ![2] = SymBlocks(d.D, d.N, phi[2])]
    [] OTHER -> phi

MScale(k, m) == [c \in DOMAIN m |-> VScale(k, m[c])]
MAdd(a, b) == [c \in DOMAIN a |-> VAdd(a[c], b[c])]
MSub(a, b) == [c \in DOMAIN a |-> VSub(a[c], b[c])]
MDot(a, b) == FSumTo(LAMBDA c : VDot(a[c], b[c]), Len(a))

(***************************************************************************)
(* Lower bound.                                                            *)
(***************************************************************************)
\* E log p - E log q of one element; annealing divides -E log q
LElem(s, M, n, e) ==
  IF s.ob[n][e] THEN FAdd(T(s.us, M, n, e), s.fs[n][e])
  ELSE FSub(T(s.us, M, n, e),
            FDiv(FAdd(MDot(s.ph[n][e], s.us[n][e]), s.gs[n][e]), s.an[n]))

LNode(s, M, n, live) ==
  FMul(M[n].w, FSumTo(LAMBDA e : IF live[n][e] THEN LElem(s, M, n, e) ELSE F0, Prod(M[n].pl)))

\* every participating latent element carries a proper distribution
Proper(s, M, n, live) == \A e \in El(M, n) : live[n][e] => s.ok[n][e]

(***************************************************************************)
(* Transitions.                                                            *)
(***************************************************************************)
\* set element distributions of node n to the given natural parameters
\* (a function of the unobserved elements)
SetPhi(s, M, n, phi0) ==
  LET phi == TLCEval([e \in DOMAIN phi0 |-> Canon(M[n], phi0[e])])
      mom == TLCEval([e \in DOMAIN phi |-> Mom(DAt(M[n], e), M[n].S, phi[e])]) IN
  [s EXCEPT
     !.us[n] = TLCEval([e \in El(M, n) |-> IF s.ob[n][e] THEN s.us[n][e] ELSE mom[e][1]]),
     !.ph[n] = TLCEval([e \in El(M, n) |-> IF s.ob[n][e] THEN s.ph[n][e] ELSE phi[e]]),
     !.gs[n] = TLCEval([e \in El(M, n) |-> IF s.ob[n][e] THEN s.gs[n][e] ELSE mom[e][2]]),
     !.ok[n] = [e \in El(M, n) |-> TRUE]]
Latent(s, M, n) == {e \in El(M, n) : ~s.ob[n][e]}

\* coordinate update: q(n) maximises the (annealed) lower bound
Update(s, M, D, live, n) ==
  SetPhi(s, M, n, [e \in Latent(s, M, n) |->
           MScale(s.an[n], PostCoef(s.us, M, n, e, D, live))])

\* q(n) := the prior at the parents' current moments
InitPrior(s, M, n) ==
  SetPhi(s, M, n, [e \in Latent(s, M, n) |-> PriorCoef(s.us, M, n, e)])

\* q(n) := the distribution whose parameters are the given constants: the
\* prior in the model where the parents of n are replaced by constants
InitParams(s, M, n, consts) ==
  LET M2 == M \o consts
      M3 == [M2 EXCEPT ![n].par = [i \in DOMAIN M[n].par |->
               IF i <= Len(consts) THEN Len(M) + i ELSE M[n].par[i]]]
      us2 == s.us \o [i \in DOMAIN consts |-> consts[i].u]
  IN  SetPhi(s, M, n, [e \in Latent(s, M, n) |-> PriorCoef(us2, M3, n, e)])

\* natural (Riemannian) gradient and a step along it; an impossible category
\* which is to remain impossible (-inf on both sides) has gradient zero
NatGrad(s, M, D, live, n, e) ==
  MSub(MScale(s.an[n], Canon(M[n], PostCoef(s.us, M, n, e, D, live))), Canon(M[n], s.ph[n][e]))
GradStep(s, M, D, live, n, scale) ==
  SetPhi(s, M, n, [e \in Latent(s, M, n) |->
           MAdd(Canon(M[n], s.ph[n][e]), MScale(scale, NatGrad(s, M, D, live, n, e)))])

\* q(n) := the given natural parameters
SetParams(s, M, n, phi) == SetPhi(s, M, n, [e \in Latent(s, M, n) |-> phi[e]])

\* clamp the elements selected by mask to x (values per element); the rest of
\* the node becomes (or stays) latent with the moments it has
Observe(s, M, n, x, mask) ==
  LET fx == TLCEval([e \in El(M, n) |-> IF mask[e] THEN Fix(DAt(M[n], e), M[n].S, x[e]) ELSE <<>>]) IN
  [s EXCEPT
     !.us[n] = TLCEval([e \in El(M, n) |-> IF mask[e] THEN fx[e][1] ELSE s.us[n][e]]),
     !.fs[n] = TLCEval([e \in El(M, n) |-> IF mask[e] THEN fx[e][2] ELSE s.fs[n][e]]),
     !.ok[n] = [e \in El(M, n) |-> mask[e] \/ (s.ok[n][e] /\ ~s.ob[n][e])],
     !.ob[n] = mask]

Unobserve(s, M, n) ==
  [s EXCEPT !.ok[n] = [e \in El(M, n) |-> s.ok[n][e] /\ ~s.ob[n][e]],
            !.ob[n] = [e \in El(M, n) |-> FALSE]]

\* point estimates: the value is all there is, and it always counts
SetPoint(s, M, n, x) ==
  LET m == TLCEval([e \in El(M, n) |-> Fix(DAt(M[n], e), M[n].S, x[e])]) IN
  [s EXCEPT !.us[n] = TLCEval([e \in El(M, n) |-> m[e][1]]),
            !.gs[n] = [e \in El(M, n) |-> F0],
            !.ok[n] = [e \in El(M, n) |-> TRUE]]

\* an update maximises the bound, m0 x + m1 log Gamma(x) for a shape and
\* m0.a + m1 (log Gamma(sum a) - sum log Gamma(a)) for concentrations; the
\* iteration of the latter stops at a relative change of 1e-5
IsBest(M, n, x, c) ==
  IF M[n].d.k = "GammaShape"
  THEN LET p == FMul(c[2][1], FDigamma(x[1]))
       IN  FLe(FAbs(FAdd(c[1][1], p)), FMul(FParse("1e-6"), FAdd(FAbs(c[1][1]), FAbs(c[2][1]))))
  ELSE LET t == VSum(x)
       IN  \A k \in DOMAIN x :
             FLe(FAbs(FSub(FSub(FDigamma(x[k]), FDigamma(t)), FDiv(c[1][k], c[2][1]))),
                 FMul(FParse("2e-5"), FAdd(F1, FDiv(F1, t))))

\* latent elements become point masses at x (no density; no bound until the
\* next update)
InitValue(s, M, n, x) ==
  IF IsPoint(M[n]) THEN SetPoint(s, M, n, x) ELSE
  [s EXCEPT
     !.us[n] = TLCEval([e \in El(M, n) |-> IF s.ob[n][e] THEN s.us[n][e]
                                           ELSE Fix(DAt(M[n], e), M[n].S, x[e])[1]]),
     !.ok[n] = [e \in El(M, n) |-> s.ob[n][e]]]

\* latent elements of a Gaussian array get a mean and a covariance (no bound
\* until the next update)
InitMom(s, M, n, mu, cov) ==
  [s EXCEPT
     !.us[n] = TLCEval([e \in El(M, n) |-> IF s.ob[n][e] THEN s.us[n][e]
                                           ELSE <<mu[e], VAdd(cov[e], OuterSelf(mu[e]))>>]),
     !.ok[n] = [e \in El(M, n) |-> s.ob[n][e]]]

Anneal(s, M, b) == [s EXCEPT !.an = [n \in N1(M) |-> b]]

\* log density of q(n, e) at the value x
LogQ(s, M, n, e, x) ==
  LET f == Fix(DAt(M[n], e), M[n].S, x) IN FAdd(FAdd(MDot(s.ph[n][e], f[1]), s.gs[n][e]), f[2])
=============================================================================
