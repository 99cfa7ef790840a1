------------------------------ MODULE Transform -------------------------------
(***************************************************************************)
(* Parameter expansion: transformations of the approximation of Gaussian   *)
(* variables.  A rotation replaces the variable x by K x for an invertible *)
(* linear map K, so the new approximation is the push-forward of the old   *)
(* one.  Rotators say which maps are applied to which nodes of a model     *)
(* when one matrix R is chosen, and RotBlock is their composition.         *)
(***************************************************************************)
EXTENDS Query

MT(n, A) == [t \in 1..(n*n) |-> A[((t-1) % n) * n + ((t-1) \div n) + 1]]
MCong(n, A, B) == MMul(n, n, n, A, MMul(n, n, n, B, MT(n, A)))     \* A B A'
MVec(n, A, v) == MMul(n, n, 1, A, v)

\* the map on arrays of shape S that multiplies the axis ax (1-based) by R
AxisMap(S, ax, R) ==
  LET W == Prod(S)
      ix == TLCEval([i \in 1..W |-> UnFlat(S, i)])
  IN  [t \in 1..(W*W) |->
         LET a == ix[((t-1) \div W) + 1]
             b == ix[((t-1) % W) + 1]
         IN  IF \A k \in DOMAIN S : k = ax \/ a[k] = b[k]
             THEN R[a[ax] * S[ax] + b[ax] + 1] ELSE F0]
\* X -> R1 X R2' on D1 x D2 matrices stored row by row
KronMap(D1, D2, R1, R2) ==
  LET W == D1 * D2 IN
  [t \in 1..(W*W) |->
     LET a == UnFlat(<<D1, D2>>, ((t-1) \div W) + 1)
         b == UnFlat(<<D1, D2>>, ((t-1) % W) + 1)
     IN  FMul(R1[a[1]*D1 + b[1] + 1], R2[a[2]*D2 + b[2] + 1])]

Blocks(f(_), v, len) ==      \* f on every block of v
  LET n == Len(v) \div len
      b == TLCEval([k \in 1..n |-> f(SubSeq(v, (k-1)*len + 1, k*len))])
  IN  [t \in 1..(n*len) |-> b[((t-1) \div len) + 1][((t-1) % len) + 1]]

\* push-forward of element distribution (us, ph, gs) by K; chains: every state
\* is multiplied by K
Push(s, M, n, K, W) ==
  LET d == Inner(M[n].d)
      Ki == MInv(W, K)
      Kt == TLCEval(MT(W, Ki))
      ld == MLogAbsDet(W, K)
      Mean(A, v) == IF d.k = "GMC" THEN Blocks(LAMBDA x : MVec(W, A, x), v, W) ELSE MVec(W, A, v)
      Cov(A, v) == IF d.k = "GMC" THEN Blocks(LAMBDA x : MCong(W, A, x), v, W*W) ELSE MCong(W, A, v)
      Both(A, u) == [c \in DOMAIN u |-> IF c = 1 THEN Mean(A, u[1])
                                        ELSE IF c = 2 \/ d.k = "GMC" THEN Cov(A, u[c]) ELSE u[c]]
      reps == IF d.k = "GMC" THEN d.N ELSE 1
  IN  [s EXCEPT
         !.us[n] = TLCEval([e \in El(M, n) |-> Both(K, s.us[n][e])]),
         !.ph[n] = TLCEval([e \in El(M, n) |-> Both(Kt, s.ph[n][e])]),
         !.gs[n] = TLCEval([e \in El(M, n) |-> FSub(s.gs[n][e], FMul(FInt(reps), ld))])]

\* x -> R x along variable axis ax of node n
RotateNode(s, M, n, R, ax) ==
  IF Inner(M[n].d).k = "GMC" THEN Push(s, M, n, R, Inner(M[n].d).D)
  ELSE Push(s, M, n, TLCEval(AxisMap(M[n].S, ax, R)), Prod(M[n].S))
RotateMatrix(s, M, n, D1, D2, R1, R2) ==
  Push(s, M, n, TLCEval(KronMap(D1, D2, R1, R2)), D1 * D2)

\* plates along axis ax (1-based) are mixed by Q.  Plates stay independent, so
\* this is an approximation: means are mixed exactly, and the covariance of a
\* plate is multiplied by the square of its column sum
RotatePlates(s, M, n, Q, ax) ==
  LET pl == M[n].pl
      W == Prod(M[n].S)
      L == pl[ax]
      colsum == [k \in 1..L |-> VSum([i \in 1..L |-> Q[(i-1)*L + k]])]
      mean(e) == LET ix == UnFlat(pl, e) IN
                 [c \in 1..W |-> FSumTo(LAMBDA k :
                     FMul(Q[ix[ax]*L + k], s.us[n][BFlat(pl, [ix EXCEPT ![ax] = k-1])][1][c]), L)]
      phi(e) == LET q == colsum[UnFlat(pl, e)[ax] + 1]
                    p2 == TLCEval(VScale(FDiv(F1, FSq(q)), s.ph[n][e][2]))
                IN  <<MVec(W, VSym(W, VScale(FInt(-2), p2)), mean(e)), p2>>
  IN  SetPhi(s, M, n, [e \in El(M, n) |-> phi(e)])

\* x -> x + b (b: one vector for all elements, or one per element)
TranslateNode(s, M, n, b) ==
  LET W == Prod(M[n].S)
      gg == Inner(M[n].d).k = "GaussianGamma"
      Tr1(e) ==
        LET u == s.us[n][e]
            p == s.ph[n][e]
            t == IF gg THEN u[3][1] ELSE F1
            Lb == MVec(W, VSym(W, VScale(FInt(-2), p[2])), b[e])
            xx == VAdd(VAdd(u[2], VOuter(u[1], b[e])), VAdd(VOuter(b[e], u[1]), VScale(t, VOuter(b[e], b[e]))))
            q == FAdd(FMul(FHalf, VDot(b[e], Lb)), FDiv(VDot(u[1], Lb), t))
        IN  [u |-> [u EXCEPT ![1] = VAdd(u[1], VScale(t, b[e])), ![2] = xx],
             p |-> IF gg THEN [p EXCEPT ![1] = VAdd(p[1], Lb), ![3] = <<FSub(p[3][1], q)>>]
                   ELSE [p EXCEPT ![1] = VAdd(p[1], Lb)],
             g |-> IF gg THEN s.gs[n][e] ELSE FSub(s.gs[n][e], q)]
      r == TLCEval([e \in El(M, n) |-> Tr1(e)])
  IN  [s EXCEPT !.us[n] = [e \in El(M, n) |-> r[e].u],
                !.ph[n] = [e \in El(M, n) |-> r[e].p],
                !.gs[n] = [e \in El(M, n) |-> r[e].g]]

(***************************************************************************)
(* Rotators.  A block is a record                                          *)
(*   [t |-> "gauss", n]                 rotate node n                      *)
(*   [t |-> "ard", n, ax, alpha]        rotate axis ax of n, then update   *)
(*                                      its precision alpha (0: none)      *)
(*   [t |-> "chain", n, rows, Din]      rotate chain n; rows (an "ard"     *)
(*                                      block with the plate axis pax of   *)
(*                                      the rows) holds its dynamics       *)
(*   [t |-> "multi", bs]                all the same                       *)
(***************************************************************************)
\* R, bordered by an identity for the inputs
Border(D, Din, R) ==
  LET W == D + Din IN
  [t \in 1..(W*W) |->
     LET i == (t-1) \div W
         j == (t-1) % W
     IN  IF i < D /\ j < D THEN R[i*D + j + 1] ELSE IF i = j THEN F1 ELSE F0]

ArdBlock(s, M, D, live, b, R, Q) ==
  LET s1 == TLCEval(RotateNode(s, M, b.n, R, b.ax))
      s2 == IF b.pax = 0 THEN s1 ELSE TLCEval(RotatePlates(s1, M, b.n, Q, b.pax))
  IN  IF b.alpha = 0 THEN s2 ELSE TLCEval(Update(s2, M, D, live, b.alpha))

RECURSIVE RotBlock(_, _, _, _, _, _)
RotBlock(s, M, D, live, b, R) ==
  CASE b.t = "gauss" -> RotateNode(s, M, b.n, R, 1)
    [] b.t = "ard" -> ArdBlock(s, M, D, live, b, R, <<>>)
    [] b.t = "chain" ->
         LET K == Inner(M[b.n].d).D
             Rit == TLCEval(MT(K, MInv(K, R)))
             s1 == TLCEval(RotateNode(s, M, b.n, R, 1))
         IN  ArdBlock(s1, M, D, live, b.rows, Border(K, b.Din, Rit), R)
    [] b.t = "multi" ->
         LET RECURSIVE All(_) All(i) == IF i = 0 THEN s
                                        ELSE TLCEval(RotBlock(All(i-1), M, D, live, b.bs[i], R))
         IN  All(Len(b.bs))

\* the optimizer rotates one block by R and the other by its inverse transpose
RotBoth(s, M, D, live, op, R) ==
  LET b1 == TLCEval(RotBlock(s, M, D, live, op.b1, R))
  IN  RotBlock(b1, M, D, live, op.b2, TLCEval(MT(op.K, MInv(op.K, R))))

RECURSIVE BlockNodes(_)
BlockNodes(b) ==
  CASE b.t = "gauss" -> {b.n}
    [] b.t = "ard" -> IF b.alpha = 0 THEN {b.n} ELSE {b.n, b.alpha}
    [] b.t = "chain" -> {b.n} \cup BlockNodes(b.rows)
    [] b.t = "multi" -> UNION {BlockNodes(b.bs[i]) : i \in DOMAIN b.bs}

\* what a rotator adds to the lower bound when R is chosen: the terms of its
\* nodes after the rotation
BlockBound(s, M, D, live, b, R) ==
  LET z == TLCEval(RotBlock(s, M, D, live, b, R))
      ns == SetToSeq(BlockNodes(b))
  IN  FSumTo(LAMBDA i : LNode(z, M, ns[i], live), Len(ns))
BlockTerm(s, M, D, live, b, R, n) == LNode(TLCEval(RotBlock(s, M, D, live, b, R)), M, n, live)

Ident(n) == [t \in 1..(n*n) |-> IF (t-1) \div n = (t-1) % n THEN F1 ELSE F0]

\* derivative of BlockBound by every entry of R
BlockGrad(s, M, D, live, b, R, h) ==
  TLCEval([t \in DOMAIN R |->
     FDiv(FSub(BlockBound(s, M, D, live, b, [R EXCEPT ![t] = FAdd(R[t], h)]),
               BlockBound(s, M, D, live, b, [R EXCEPT ![t] = FSub(R[t], h)])),
          FMul(FInt(2), h))])
=============================================================================
