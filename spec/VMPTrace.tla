------------------------------- MODULE VMPTrace -------------------------------
(***************************************************************************)
(* Checks recorded executions of the library against VMP.                  *)
(*                                                                         *)
(* A trace is a model, the state after construction, and a list of public  *)
(* calls each with the state the library was in after the call.  The spec  *)
(* steps through the calls: from the recorded state before the call it     *)
(* computes the state VMP allows after it and compares.  Verdicts are      *)
(* total: every failing clause of every step is printed and checking goes  *)
(* on from the recorded state; a trace that was followed to its end prints *)
(* DONE.                                                                   *)
(***************************************************************************)
EXTENDS Optim, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, M, D, s,
          sv,           \* sv[1]: the state after construction; sv[f+1]: file f
          cg            \* search direction of the optimiser
vars == <<tr, l, M, D, s, sv, cg>>

Tr == Traces[tr]
RTol == FParse(Tr.rtol)
ATol == FParse(Tr.atol)

\* ---------------------------------------------------------------- parsing
Chunk(v, e, n) == SubSeq(v, (e-1)*n + 1, e*n)

ParseModel(t) ==
  TLCEval([n \in DOMAIN t.nodes |->
     LET nd == t.nodes[n] IN
     [name |-> nd.name, d |-> nd.d, par |-> nd.par, pl |-> nd.pl, S |-> nd.S,
      dims |-> nd.dims, cls |-> nd.cls, w |-> FParse(nd.w),
      bias |-> IF nd.cls = "const" \/ Len(nd.bias) = 0 THEN <<>>
               ELSE LET b == TLCEval([k \in DOMAIN nd.bias |-> FVec(nd.bias[k])]) IN
                    [e \in Elems(nd.pl) |-> [k \in DOMAIN b |-> Chunk(b[k], e, Prod(nd.dims[k]))]],
      u |-> IF nd.cls # "const" THEN <<>>
            ELSE LET v == FVec(nd.val) IN
                 [e \in Elems(nd.pl) |-> Fix(nd.d, nd.S, Chunk(v, e, nd.vlen))[1]]]])

\* moments (or parameters) of every stochastic node from strings
ParseMoms(m, strs) ==
  TLCEval([n \in DOMAIN m |->
     IF m[n].cls = "const" THEN m[n].u
     ELSE IF m[n].cls = "det" THEN <<>>
     ELSE LET v == TLCEval([k \in 1..NComp(m[n]) |-> FVec(strs[n][k])]) IN
          [e \in Elems(m[n].pl) |-> [k \in 1..NComp(m[n]) |-> Chunk(v[k], e, CompLen(m[n], k))]]])
\* natural parameters in canonical form
ParsePhi(m, strs) ==
  LET p == ParseMoms(m, strs) IN
  TLCEval([n \in N1(m) |-> IF IsStoch(m[n]) THEN TLCEval([e \in El(m, n) |-> Canon(m[n], p[n][e])]) ELSE p[n]])
ParseVals(nd, str, vlen) == LET v == FVec(str) IN TLCEval([e \in Elems(nd.pl) |-> Chunk(v, e, vlen)])

\* ---------------------------------------------------------------- verdicts
Bad(step, what, node) ==
  PrintT(<<"BAD", Tr.id, step, IF step = 0 THEN "build" ELSE Tr.steps[step].op.k, what, node>>)
\* evaluates to TRUE in any case
Check(ok, step, what, node) == IF ok THEN TRUE ELSE Bad(step, what, node)
\* evaluate as a value (a disjunction in an action would be two transitions)
Eval(v) == v \in BOOLEAN

SameMom(a, b) == \A k \in DOMAIN a : VSame(a[k], b[k])
CloseMom(a, b) == \A k \in DOMAIN a : VClose(a[k], b[k], RTol, ATol)
\* gradients are compared as parameters are; the direction of an infinite
\* parameter (an impossible category) does not matter
CanonGrad(nd, ph, g) ==
  Canon(nd, [k \in DOMAIN g |->
    IF FIsFin(VSum(ph[k])) THEN g[k]
    ELSE [i \in DOMAIN g[k] |-> IF FIsFin(ph[k][i]) THEN g[k][i] ELSE FNeg(FInf)]])
AbsMax(v) == VMax([i \in DOMAIN v |-> IF FIsFin(v[i]) THEN FAbs(v[i]) ELSE F0])

Readable(snap, step) ==
  \A n \in DOMAIN snap.bad : snap.bad[n] = "" \/ (Bad(step, snap.bad[n], M[n].name) /\ FALSE)

\* bounds of the state against the recorded ones
LiveOf(st) == LiveAll(M, D, st.ob)
CheckBound(st, snap, step) ==
  LET live == LiveOf(st)
      proper == {n \in StochOf(M) : Proper(st, M, n, live)}
      L == TLCEval([n \in proper |-> LNode(st, M, n, live)])
      seq == SetToSeq(proper)
      \* scale of rounding: the largest contribution
      sc == FMax(F1, VMax([i \in 1..(Len(seq) + 1) |-> IF i > Len(seq) THEN F1 ELSE FAbs(L[seq[i]])]))
      tol == FMul(FMul(RTol, FInt(10)), sc)
  IN  /\ \A n \in proper : snap.L[n] = "-" \/
            Check(FClose(L[n], FParse(snap.L[n]), RTol, tol), step, "bound", M[n].name)
      /\ (proper # StochOf(M) \/ snap.Ltot = "-" \/
            Check(FClose(FSumTo(LAMBDA i : L[seq[i]], Len(seq)), FParse(snap.Ltot), RTol, tol),
                  step, "total bound", "-"))

CheckDet(st, snap, step) ==
  \A n \in N1(M) :
    (M[n].cls # "det" \/ snap.det[n] = <<>>) \/
    LET v == TLCEval([k \in 1..NComp(M[n]) |-> FVec(snap.det[n][k])]) IN
    Check(\A e \in Elems(M[n].pl) :
            LET x == U(st.us, M, n, e) IN
            \A k \in 1..NComp(M[n]) : VClose(x[k], Chunk(v[k], e, CompLen(M[n], k)), RTol, ATol),
          step, "deterministic moments", M[n].name)

\* expected state e against recorded moments/parameters (u, ph, ob); t are
\* the nodes the call may change
CheckState(b, e, u, ph, ob, t, exact, step) ==
  \A n \in StochOf(M) :
    /\ Check(ob[n] = e.ob[n], step, "observed", M[n].name)
    /\ IF n \in t /\ exact
       THEN /\ Check(\A x \in El(M, n) : SameMom(e.us[n][x], u[n][x]), step, "moments restored", M[n].name)
            /\ Check(\A x \in El(M, n) : SameMom(e.ph[n][x], ph[n][x]), step, "parameters restored", M[n].name)
       ELSE IF n \in t
       THEN /\ Check(\A x \in El(M, n) : IF e.ob[n][x] /\ b.ob[n][x] /\ VSame(e.us[n][x][1], b.us[n][x][1])
                                         THEN SameMom(e.us[n][x], u[n][x])
                                         ELSE CloseMom(e.us[n][x], u[n][x]),
                     step, "moments", M[n].name)
            /\ Check(\A x \in El(M, n) : e.ob[n][x] \/ ~e.ok[n][x] \/
                        CloseMom(Canon(M[n], e.ph[n][x]), Canon(M[n], ph[n][x])),
                     step, "parameters", M[n].name)
       ELSE /\ Check(\A x \in El(M, n) : SameMom(b.us[n][x], u[n][x]), step, "moments of a bystander", M[n].name)
            /\ Check(\A x \in El(M, n) : b.ob[n][x] \/ ~b.ok[n][x] \/
                        SameMom(b.ph[n][x], ph[n][x]), step, "parameters of a bystander", M[n].name)

\* ---------------------------------------------------------------- the calls
Sweep(b, ns) == UpdateAll(b, M, D, LiveOf(b), ns)

\* the nodes ns of b as they are in z (everything that belongs to a node's
\* distribution and observation; settings such as annealing are not saved)
Restore(b, z, ns) ==
  LET t == {ns[i] : i \in DOMAIN ns}
      Pick(x, y) == [n \in N1(M) |-> IF n \in t THEN y[n] ELSE x[n]]
  IN  [b EXCEPT !.us = Pick(@, z.us), !.ph = Pick(@, z.ph), !.gs = Pick(@, z.gs), !.fs = Pick(@, z.fs),
                !.ob = Pick(@, z.ob), !.ok = Pick(@, z.ok)]

Expect(b, op) ==
  LET live == LiveOf(b)
      n == op.n
  IN
  CASE op.k = "update" -> Update(b, M, D, live, n)
    [] op.k = "initprior" -> InitPrior(b, M, n)
    [] op.k = "initparams" -> InitParams(b, M, n, ParseModel([nodes |-> op.consts]))
    [] op.k = "setparams" ->
         LET nd == M[n]
             v == [k \in 1..NComp(nd) |-> FVec(op.phi[k])]
         IN  SetParams(b, M, n, [e \in Elems(nd.pl) |-> [k \in 1..NComp(nd) |-> Chunk(v[k], e, CompLen(nd, k))]])
    [] op.k = "observe" -> Observe(b, M, n, ParseVals(M[n], op.x, op.vlen), op.mask)
    [] op.k = "unobserve" -> Unobserve(b, M, n)
    [] op.k = "initvalue" -> InitValue(b, M, n, ParseVals(M[n], op.x, op.vlen))
    [] op.k = "initmom" ->
         InitMom(b, M, n, ParseVals(M[n], op.x, op.vlen), ParseVals(M[n], op.cov, op.vlen * op.vlen))
    [] op.k = "gradstep" ->
         \* simultaneous step of several nodes: every gradient at the state before
         LET r == [i \in DOMAIN op.ns |-> GradStep(b, M, D, live, op.ns[i], FParse(op.scale))]
             RECURSIVE Merge(_)
             Merge(i) == IF i = 0 THEN b
                         ELSE LET p == Merge(i-1)
                                  q == op.ns[i]
                              IN  [p EXCEPT !.us[q] = r[i].us[q], !.ph[q] = r[i].ph[q],
                                            !.gs[q] = r[i].gs[q], !.ok[q] = r[i].ok[q]]
         IN  Merge(Len(op.ns))
    [] op.k = "sweep" -> Sweep(b, op.ns)
    [] op.k = "load" -> Restore(b, sv[op.file + 1], op.ns)
    [] op.k = "fresh" -> sv[1]
    [] op.k = "anneal" -> Anneal(b, M, FParse(op.beta))
    [] op.k = "rotate" -> RotateNode(b, M, n, FVec(op.R), op.ax)
    [] op.k = "rotmatrix" -> RotateMatrix(b, M, n, op.D1, op.D2, FVec(op.R), FVec(op.R2))
    [] op.k = "rotplates" -> RotatePlates(b, M, n, FVec(op.R), op.ax)
    [] op.k = "rotboth" -> RotateNode(TLCEval(RotatePlates(b, M, n, FVec(op.R2), op.ax2)), M, n, FVec(op.R), op.ax)
    [] op.k = "translate" ->
         LET v == FVec(op.x)
             W == Prod(M[n].S)
         IN  TranslateNode(b, M, n, [e \in El(M, n) |-> Chunk(v, e, W)])
    [] op.k = "rotblocks" -> RotBoth(b, M, D, live, op, TLCEval(FVec(op.R)))
    [] OTHER -> b           \* queries and rejected calls: nothing changes

\* ... where the library chooses the parameters: they are taken as recorded and
\* everything else must follow from them
RECURSIVE SweepPoint(_, _, _, _, _)
SweepPoint(b, live, ns, u, step) ==
  IF ns = <<>> THEN b
  ELSE LET n == Head(ns) IN
       IF IsPoint(M[n])
       THEN LET z == TLCEval(SetPoint(b, M, n, [e \in El(M, n) |-> u[n][e][1]]))
                right == \A e \in El(M, n) : ~live[n][e] \/
                            IsBest(M, n, u[n][e][1], PostCoef(b.us, M, n, e, D, live))
            IN  IF Check(right, step, "not the best estimate", M[n].name)
                THEN SweepPoint(z, live, Tail(ns), u, step) ELSE z
       ELSE SweepPoint(TLCEval(Update(b, M, D, live, n)), live, Tail(ns), u, step)

ExpectR(b, op, u, ph, step) ==
  CASE op.k = "update" /\ IsPoint(M[op.n]) -> SweepPoint(b, LiveOf(b), <<op.n>>, u, step)
    [] op.k = "sweep" /\ (\E i \in DOMAIN op.ns : IsPoint(M[op.ns[i]])) -> SweepPoint(b, LiveOf(b), op.ns, u, step)
    [] op.k = "optstep" -> Sweep(SetAll(b, M, op.ns, ph), op.cs)
    [] op.k = "pattern" ->
         \* collapsed nodes may have been visited any number of times
         Sweep(SetAll(Sweep(b, op.ns \o op.cs), M, op.ns, ph), op.cs)
    [] OTHER -> Expect(b, op)

\* search directions: what was chosen must lie along an admissible one
NoDir == [st |-> "none", s |-> <<>>, dd |-> F0]
PTol(b, a) == FMul(FMul(FInt(10), RTol), FMax(F1, FMax(PMax(a), PMax(b))))
OptStep(b, op, ph, step) ==      \* <<verdict, direction>>
  LET live == LiveOf(b)
      P0 == Point(b, M, op.ns)
      P1 == Pt(M, op.ns, LAMBDA n, e : Lin(M[n], ph[n][e]))
      X == TLCEval(PSub(P1, P0))
      rg == RiemPoint(b, M, D, live, op.ns)
      g == IF op.riem /\ op.method = "gradient" THEN rg ELSE EucPoint(b, M, D, live, op.ns)
      g2 == IF op.riem THEN rg ELSE g
      dd == PDot(g, g2)
      tol == PTol(P0, P1)
      Ok(d) == Along(X, d, tol) /\ (FLe(PMax(X), FMul(FInt(1000), tol)) \/ StepLength(Coef(X, d), op.t))
      still == FLe(PMax(X), tol)
      conj == IF op.method = "gradient" \/ op.t = 0 \/ cg.st # "known" THEN g2
              ELSE TLCEval(PAdd(g2, PScale(FDiv(dd, cg.dd), cg.s)))
  IN  IF still THEN <<TRUE, [st |-> "unknown", s |-> <<>>, dd |-> dd]>>     \* too short to tell
      ELSE IF op.method = "fr" /\ op.t > 0 /\ cg.st = "unknown" THEN <<TRUE, cg>>
      ELSE IF Ok(conj) THEN <<TRUE, [st |-> "known", s |-> conj, dd |-> dd]>>
      ELSE <<Ok(g2), [st |-> "known", s |-> g2, dd |-> dd]>>
CheckOpt(b, op, ph, step) ==     \* the direction afterwards
  IF op.k # "optstep" THEN cg
  ELSE LET r == OptStep(b, op, ph, step) IN
       IF Check(r[1], step, "search direction", op.name) THEN r[2] ELSE NoDir
CheckPattern(b, op, ph, snap, step) ==
  IF op.k # "pattern" THEN TRUE
  ELSE LET b1 == Sweep(b, op.ns \o op.cs)
           b2 == Sweep(b1, op.ns)
           P0 == Point(b1, M, op.ns)
           P1 == Point(b2, M, op.ns)
           dp == TLCEval(PSub(P1, P0))
           P == Pt(M, op.ns, LAMBDA n, e : Lin(M[n], ph[n][e]))
           X == TLCEval(PSub(P, P1))
           tol == PTol(P0, P)
           b3 == Sweep(b2, op.cs)
           live == LiveOf(b)
           seq == SetToSeq(StochOf(M))
           L == FSumTo(LAMBDA i : LNode(b3, M, seq[i], live), Len(seq))
       IN  /\ Check(FLe(PMax(X), tol) \/ Along(X, dp, tol), step, "pattern search left its line", op.name)
           /\ (Len(op.cs) > 1 \/ snap.Ltot = "-" \/ ~FIsFin(L) \/ ~(\A n \in StochOf(M) : Proper(b3, M, n, live)) \/
               Check(FLe(FSub(L, FMul(FMax(F1, FAbs(L)), FMul(FInt(10), RTol))), FParse(snap.Ltot)), step,
                     "pattern search made the bound worse", op.name))

Exact(op) == op.k \in {"load", "fresh"}
Targets(op) == IF op.k = "rotblocks" THEN BlockNodes(op.b1) \cup BlockNodes(op.b2)
               ELSE IF op.k \in {"optstep", "pattern"} THEN {op.ns[i] : i \in DOMAIN op.ns} \cup {op.cs[i] : i \in DOMAIN op.cs}
               ELSE IF op.k \in {"gradstep", "sweep", "load", "fresh"} THEN {op.ns[i] : i \in DOMAIN op.ns}
               ELSE IF op.k \in {"update", "initprior", "initparams", "setparams", "observe",
                                 "unobserve", "initvalue", "initmom", "rotate", "rotmatrix", "rotplates",
                                 "rotboth", "translate"} THEN {op.n} ELSE {}

\* gradients: accurate to about six digits of the largest entry
CloseGrad(a, b) == \A k \in DOMAIN a : VClose(a[k], b[k], FParse("1e-5"), FParse("1e-7"))
Sym2(nd, m) == IF Inner(nd.d).k \in {"Gaussian", "GaussianARD"} THEN [m EXCEPT ![2] = VSym(Prod(nd.S), m[2])] ELSE m

\* results of queries
CheckResult(b, op, step) ==
  CASE op.k = "logpdf" ->
         LET nd == M[op.n]
             x == ParseVals(nd, op.x, op.vlen)
             r == FVec(op.res)
         IN  Check(Len(r) = Prod(nd.pl) /\
                   \A e \in Elems(nd.pl) : b.ob[op.n][e] \/ ~b.ok[op.n][e] \/
                     FClose(LogQ(b, M, op.n, e, x[e]), r[e], FMul(FInt(10), RTol), FMul(FInt(10), RTol)),
                   step, "log density", nd.name)
    [] op.k = "natgrad" ->
         LET nd == M[op.n]
             v == TLCEval([k \in 1..NComp(nd) |-> FVec(op.res[k])])
             live == LiveOf(b)
         IN  Check(\A e \in Elems(nd.pl) : b.ob[op.n][e] \/
                      CloseMom(CanonGrad(nd, b.ph[op.n][e], NatGrad(b, M, D, live, op.n, e)),
                               CanonGrad(nd, b.ph[op.n][e], [k \in 1..NComp(nd) |-> Chunk(v[k], e, CompLen(nd, k))])),
                   step, "natural gradient", nd.name)
    [] op.k = "eucgrad" ->
         LET nd == M[op.n]
             v == TLCEval([k \in 1..NComp(nd) |-> FVec(op.res[k])])
             live == LiveOf(b)
         IN  Check(\A e \in Elems(nd.pl) : b.ob[op.n][e] \/ ~b.ok[op.n][e] \/
                      CloseGrad(Sym2(nd, EucGrad(b, M, D, live, op.n, e)),
                                Sym2(nd, [k \in 1..NComp(nd) |-> Chunk(v[k], e, CompLen(nd, k))])),
                   step, "gradient", nd.name)
    [] op.k = "moments" ->
         \* get_moments of any node
         LET nd == M[op.n]
             v == TLCEval([k \in 1..NComp(nd) |-> FVec(op.res[k])])
         IN  Check(\A e \in Elems(nd.pl) :
                     CloseMom(U(b.us, M, op.n, e), [k \in 1..NComp(nd) |-> Chunk(v[k], e, CompLen(nd, k))]),
                   step, "get_moments", nd.name)
    [] op.k = "rotbound" ->
         LET live == LiveOf(b)
             R == TLCEval(FVec(op.R))
             I == Ident(op.K)
             tol == FMul(RTol, FInt(100))
             At0 == TLCEval(RotBlock(b, M, D, live, op.b1, I))
             AtR == TLCEval(RotBlock(b, M, D, live, op.b1, R))
             Term(z, n) == LNode(z, M, n, live)
             ns == SetToSeq(BlockNodes(op.b1))
             Tot(z) == FSumTo(LAMBDA i : Term(z, ns[i]), Len(ns))
             res == FVec(op.res)
             sc == FMul(tol, FMax(F1, FMax(FAbs(Tot(AtR)), FAbs(Tot(At0)))))
         IN  /\ Check(FClose(FSub(Tot(AtR), Tot(At0)), FSub(res[1], res[2]), tol, sc), step,
                      "cost of a rotation", op.name)
             /\ op.terms = <<>> \/
                \A i \in DOMAIN op.terms :
                   LET q == op.terms[i]
                       v == FVec(q.v)
                   IN  Check(FClose(FSub(Term(AtR, q.n), Term(At0, q.n)), FSub(v[1], v[2]), tol, sc), step,
                             "bound term of a rotation", M[q.n].name)
             /\ op.grad = "" \/
                LET G == TLCEval(BlockGrad(b, M, D, live, op.b1, R, FParse("1e-5"))) IN
                Check(VClose(G, FVec(op.grad), FParse("1e-4"), FParse("1e-4")), step, "gradient of a rotation", op.name)
    [] op.k = "pdf" ->
         LET nd == M[op.n]
             x == ParseVals(nd, op.x, op.vlen)
             r == FVec(op.res)
         IN  Check(Len(r) = Prod(nd.pl) /\
                   \A e \in Elems(nd.pl) : b.ob[op.n][e] \/ ~b.ok[op.n][e] \/
                     FClose(FExp(LogQ(b, M, op.n, e, x[e])), r[e], FMul(FInt(100), RTol), FParse("1e-290")),
                   step, "density", nd.name)
    [] op.k = "draws" ->
         LET nd == M[op.n]
             right == op.shape = DrawShape(nd)
         IN  /\ Check(right, step, "shape of a draw", nd.name)
             /\ ~right \/ ~Drawable(b, M, op.n) \/ Check(DrawsOK(b, M, op), step, "draws", nd.name)
    [] op.k = "text" ->
         ~(\A e \in El(M, op.n) : b.ok[op.n][e]) \/
         Check(TextOK(b, M, op, RTol, ATol), step, "text", M[op.n].name)
    [] op.k \in {"location", "meanvar"} ->
         LET nd == M[op.n]
             n == Prod(nd.S)
             v == TLCEval([k \in DOMAIN op.res |-> FVec(op.res[k])])
         IN  Check(\A e \in El(M, op.n) : ~b.ok[op.n][e] \/ b.ob[op.n][e] \/
                     (/\ VClose(GGMean(nd, b.ph[op.n][e]), Chunk(v[1], e, n), RTol, ATol)
                      /\ op.k = "location" \/
                         VClose(GGVar(nd, b.ph[op.n][e]), Chunk(v[2], e, n), FMul(FInt(10), RTol), ATol)),
                   step, op.k, nd.name)
    [] op.k = "marginal" ->
         LET nd == M[op.n] IN
         ~b.ok[op.n][1] \/ b.ob[op.n][1] \/
         Check(FClose(GGMarginal(nd, b.ph[op.n][1], op.inds, op.gamma, FVec(op.x)), FParse(op.res),
                      FMul(FInt(10), RTol), FMul(FInt(10), RTol)), step, "marginal density", nd.name)
    [] op.k = "predict" ->
         LET nd == M[op.n]
             r == TLCEval([i \in DOMAIN op.res |-> FVec(op.res[i])])
             x == TLCEval([i \in DOMAIN op.xs |-> ParseVals(nd, op.xs[i], op.vlen)])
         IN  Check(/\ Len(r) = Len(x)
                   /\ \A i \in DOMAIN r : \A e \in El(M, op.n) :
                        FClose(Predict(b, M, op.n, e, x[i][e]), r[i][e], FMul(FInt(10), RTol), FMul(FInt(10), RTol)),
                   step, "predictive density", nd.name)
    [] OTHER -> TRUE

\* the engine's record of the bounds is the bounds
CheckHistory(snap, op, step) ==
  IF op.k # "sweep" \/ op.hist = <<>> THEN TRUE
  ELSE /\ \A n \in StochOf(M) : snap.L[n] = "-" \/
             Check(snap.L[n] = op.hist[n], step, "bound recorded by the engine", M[n].name)
       /\ snap.Ltot = "-" \/ Check(snap.Ltot = op.histtot, step, "total bound recorded by the engine", "-")

\* the optimizer of rotations, given iterations enough, ends where no small
\* change of the matrix improves the bound
CheckTurn(b, op, step) ==
  (op.k # "rotblocks") \/ ~op.full \/
  LET live == LiveOf(b)
      ns == SetToSeq(BlockNodes(op.b1) \cup BlockNodes(op.b2))
      K == op.K
      h == FParse("1e-4")
      R == TLCEval(FVec(op.R))
      Lat(i, j, d) ==
        LET z == TLCEval(RotBoth(b, M, D, live, op, TLCEval([R EXCEPT ![(i - 1) * K + j] = FAdd(@, d)])))
        IN  VSum([x \in DOMAIN ns |-> LNode(z, M, ns[x], live)])
      slope(i, j) == FDiv(FSub(Lat(i, j, h), Lat(i, j, FNeg(h))), FMul(FInt(2), h))
      tol == FMul(FParse("0.02"), FMax(F1, FMax(AbsM(R), AbsM(MInv(K, R)))))
  IN  (~\A n \in StochOf(M) : Proper(b, M, n, live)) \/
      Check(\A i \in 1..K, j \in 1..K : FLe(FAbs(slope(i, j)), tol), step, "not the best rotation", M[op.n].name)

\* the evidence lower bound never decreases in a coordinate update
Monotone(b, a, snap0, snap1, op, step) ==
  (op.k \notin {"update", "sweep", "rotblocks", "optstep"} \/ snap0.Ltot = "-" \/ snap1.Ltot = "-") \/
  LET live == LiveOf(b)
      allok == \A n \in StochOf(M) : Proper(b, M, n, live) /\ M[n].bias = <<>>
      x == FParse(snap0.Ltot)
      y == FParse(snap1.Ltot)
  IN  ~allok \/ ~FIsFin(x) \/
      Check(FLe(FSub(x, FMul(FMax(F1, FAbs(x)), FMul(FInt(10), RTol))), y), step, "bound decreased", M[op.n].name)

\* ---------------------------------------------------------------- the machine
Blank(m) ==
  [us |-> [n \in DOMAIN m |-> m[n].u],
   ph |-> [n \in DOMAIN m |-> <<>>],
   gs |-> [n \in DOMAIN m |-> IF IsStoch(m[n]) THEN [e \in El(m, n) |-> FNaN] ELSE <<>>],
   fs |-> [n \in DOMAIN m |-> IF IsStoch(m[n]) THEN [e \in El(m, n) |-> FNaN] ELSE <<>>],
   ob |-> [n \in DOMAIN m |-> IF IsStoch(m[n]) THEN [e \in El(m, n) |-> FALSE] ELSE <<>>],
   ok |-> [n \in DOMAIN m |-> IF IsStoch(m[n]) THEN [e \in El(m, n) |-> FALSE] ELSE <<>>],
   an |-> [n \in DOMAIN m |-> F1]]

\* follow the specification, then take over the recorded numbers (so that
\* rounding does not accumulate and a failed step does not condemn the rest)
Sync(e, u, ph, ob) == [e EXCEPT !.us = u, !.ph = ph, !.ob = ob]

Init ==
  /\ tr \in DOMAIN Traces
  /\ l = 0
  /\ M = ParseModel(Traces[tr])
  /\ D = Deps(M)
  /\ s = Blank(M)
  /\ sv = [f \in 1..3 |-> <<>>]
  /\ cg = NoDir

\* construction: nodes are created parents first, each initialised from its
\* prior; all are latent
RECURSIVE BuildFrom(_, _)
BuildFrom(b, n) ==
  IF n > Len(M) THEN b
  ELSE IF IsStoch(M[n]) /\ IsPoint(M[n])
       THEN BuildFrom(SetPoint(b, M, n, [e \in El(M, n) |-> VConst(CompLen(M[n], 1), F1)]), n + 1)
  ELSE IF IsStoch(M[n]) /\ Tr.nodes[n].init THEN BuildFrom(InitPrior(b, M, n), n + 1)
  ELSE BuildFrom(b, n + 1)

Build ==
  /\ l = 0
  /\ UNCHANGED <<tr, M, D, cg>>
  /\ IF Readable(Tr.init, 0) = FALSE THEN l' = Len(Tr.steps) + 1 /\ UNCHANGED <<s, sv>>
     \* \E over a singleton: evaluate once
     ELSE \E u \in {ParseMoms(M, Tr.init.u)} : \E ph \in {ParsePhi(M, Tr.init.phi)} :
          \E e \in {BuildFrom([Blank(M) EXCEPT !.us = u, !.ph = ph], 1)} :
              /\ l' = 1
              /\ Eval(\A n \in StochOf(M) :
                   ~Tr.nodes[n].init \/
                   (/\ Check(\A x \in El(M, n) : CloseMom(e.us[n][x], u[n][x]), 0, "moments", M[n].name)
                    /\ Check(\A x \in El(M, n) : CloseMom(Canon(M[n], e.ph[n][x]), Canon(M[n], ph[n][x])),
                             0, "parameters", M[n].name)))
              /\ s' = Sync(e, u, ph, Tr.init.ob)
              /\ sv' = [sv EXCEPT ![1] = s']
              /\ Eval(CheckBound(s', Tr.init, 0))
              /\ Eval(CheckDet(s', Tr.init, 0))

Step ==
  /\ l >= 1 /\ l <= Len(Tr.steps)
  /\ UNCHANGED <<tr, M, D>>
  /\ LET st == Tr.steps[l]
         op == st.op
         prev == IF l = 1 THEN Tr.init ELSE Tr.steps[l-1].post
     IN  IF op.err # "" /\ ~op.reject
         THEN l' = Len(Tr.steps) + 1 /\ UNCHANGED <<s, sv, cg>> /\ (Bad(l, "raised " \o op.err, op.name))
         ELSE
         /\ Check(~op.reject \/ op.err # "", l, "accepted", op.name)
         /\ Eval(CheckHistory(st.post, op, l))
         /\ (IF op.k = "save" THEN sv' = [sv EXCEPT ![op.file + 1] = s] ELSE UNCHANGED sv)
         /\ IF st.same
            THEN \* the recorder found every array bitwise unchanged
                 /\ l' = l + 1
                 /\ IF Targets(op) = {} /\ op.k # "anneal"
                    THEN s' = s /\ cg' = cg /\ Eval(CheckResult(s, op, l))
                    ELSE \E e \in {ExpectR(s, op, s.us, s.ph, l)} :
                         /\ s' = Sync(e, s.us, s.ph, st.post.ob)
                         /\ cg' = CheckOpt(s, op, s.ph, l)
                         /\ Eval(CheckState(s, e, s.us, s.ph, st.post.ob, Targets(op), Exact(op), l))
                         /\ Eval(CheckBound(s', st.post, l))
                         /\ Eval(CheckTurn(s, op, l))
            ELSE IF Readable(st.post, l) = FALSE THEN l' = Len(Tr.steps) + 1 /\ UNCHANGED <<s, cg>>
            ELSE \E u \in {ParseMoms(M, st.post.u)} : \E ph \in {ParsePhi(M, st.post.phi)} :
                 \E e \in {ExpectR(s, op, u, ph, l)} :
                     /\ l' = l + 1
                     /\ Eval(CheckState(s, e, u, ph, st.post.ob, Targets(op), Exact(op), l))
                     /\ s' = Sync(e, u, ph, st.post.ob)
                     /\ cg' = CheckOpt(s, op, ph, l)
                     /\ Eval(CheckPattern(s, op, ph, st.post, l))
                     /\ Eval(CheckResult(s, op, l))
                     /\ Eval(CheckTurn(s, op, l))
                     /\ Eval(Monotone(s, s', prev, st.post, op, l))
                     /\ Eval(CheckBound(s', st.post, l))
                     /\ Eval(CheckDet(s', st.post, l))

Finish ==
  /\ l = Len(Tr.steps) + 1
  /\ l' = l + 1
  /\ UNCHANGED <<tr, M, D, s, sv, cg>>
  /\ PrintT(<<"DONE", Tr.id, Len(Tr.steps)>>)

Next == Build \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
