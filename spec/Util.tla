--------------------------------- MODULE Util ---------------------------------
(***************************************************************************)
(* The array utilities by their definitions, element by element.           *)
(*                                                                         *)
(* An array is a record [sh, v].  Expected(f, a, p) is the sequence of     *)
(* arrays that the utility f returns for the arrays a and the integer      *)
(* parameters p; utilities that promise a relation rather than a value     *)
(* are in Related.                                                         *)
(***************************************************************************)
EXTENDS Model

G(A, ix) == A.v[BFlat(A.sh, ix)]
Mk(sh, F(_)) == [sh |-> sh, v |-> [e \in Elems(sh) |-> F(UnFlat(sh, e))]]
Scalar(x) == [sh |-> <<>>, v |-> <<x>>]
Ints(s) == [sh |-> <<Len(s)>>, v |-> [i \in DOMAIN s |-> FInt(s[i])]]
SInt(n) == Scalar(FInt(n))
SBool(b) == SInt(IF b THEN 1 ELSE 0)
RECURSIVE BC(_)
BC(shs) == IF shs = <<>> THEN <<>> ELSE Broadcast2(Head(shs), BC(Tail(shs)))
Shapes(a) == [i \in DOMAIN a |-> a[i].sh]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE SumInt(_)
SumInt(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumInt(Tail(s))
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
FProd(s) == LET RECURSIVE P(_) P(i) == IF i = 0 THEN F1 ELSE FMul(P(i-1), s[i]) IN P(Len(s))
FEq(x, y) == FLe(x, y) /\ FLe(y, x)
\* transpose of a row-major n x m matrix; Sylvester's criterion
MT(n, m, A) == [t \in 1..(n*m) |-> A[((t-1) % n)*m + ((t-1) \div n) + 1]]
MLogDetPD(n, A) == \A k \in 1..n : ~FIsNaN(MLogDet(k, [t \in 1..(k*k) |-> A[((t-1) \div k)*n + ((t-1) % k) + 1]]))
In(x, s) == \E i \in DOMAIN s : s[i] = x

\* fixed points of an index: ix with the entry at the 0-based axis k replaced
Repl(ix, k, v) == [ix EXCEPT ![k + 1] = v]

\* matrices formed by the last 2*n axes
Size(A, n) == Prod(LastN(A.sh, n))
FlatM(A, n) == [sh |-> FrontN(A.sh, 2*n) \o <<Size(A, n), Size(A, n)>>, v |-> A.v]
FlatV(A, n) == [sh |-> FrontN(A.sh, n) \o <<Size(A, n)>>, v |-> A.v]
\* the matrix (row-major) and the vector at a plate index
MatAt(A, ix) == LET r == A.sh[Len(A.sh) - 1]
                    c == A.sh[Len(A.sh)]
                IN  [t \in 1..(r*c) |-> G(A, ix \o <<(t-1) \div c, (t-1) % c>>)]
VecAt(A, ix) == [t \in 1..A.sh[Len(A.sh)] |-> G(A, ix \o <<t-1>>)]

Inner_(a, n) ==
  LET full == BC(Shapes(a))
      k == LastN(full, n)
  IN  Mk(FrontN(full, n), LAMBDA ix :
        FSumTo(LAMBDA t : FProd([i \in DOMAIN a |-> G(a[i], ix \o UnFlat(k, t))]), Prod(k)))
MM(A, B) ==
  LET pl == BC(<<FrontN(A.sh, 2), FrontN(B.sh, 2)>>)
      m == A.sh[Len(A.sh)]
      n == Len(pl)
  IN  Mk(pl \o <<A.sh[Len(A.sh)-1], B.sh[Len(B.sh)]>>, LAMBDA ix :
        FSumTo(LAMBDA t : FMul(G(A, SubSeq(ix, 1, n+1) \o <<t-1>>), G(B, SubSeq(ix, 1, n) \o <<t-1, ix[n+2]>>)), m))
RECURSIVE Chain(_)
Chain(a) == IF Len(a) = 1 THEN a[1] ELSE MM(TLCEval(Chain(SubSeq(a, 1, Len(a)-1))), a[Len(a)])

\* product of arrays on the plates `from', summed to the plates `to' (n inner axes)
SumMulTo(a, to, from, n) ==
  LET full == BC(Shapes(a))
      fpl == IF from = <<-1>> THEN FrontN(full, n) ELSE BC(<<from, FrontN(full, n)>>)
      inn == LastN(full, n)
      d == Len(fpl)
      \* the full index ix is summed into the index jx of the result
      Into(ix, jx) == \A i \in 1..Len(to) : to[i] = 1 \/ ix[d - Len(to) + i] = jx[i]
  IN  Mk(to \o inn, LAMBDA jx :
        VSum([t \in Elems(fpl) |->
           LET ix == UnFlat(fpl, t) IN
           IF Into(ix, jx) THEN FProd([i \in DOMAIN a |-> G(a[i], ix \o LastN(jx, n))]) ELSE F0]))

\* sum over a set of axes of the full product; kept axes in order
SumAxes(a, keep, kd) ==     \* keep: sequence of 0-based axes that stay
  LET full == BC(Shapes(a))
      rest == [i \in 1..Len(full) |-> IF In(i-1, keep) THEN 1 ELSE full[i]]
      outsh == IF kd THEN [i \in 1..Len(full) |-> IF In(i-1, keep) THEN full[i] ELSE 1]
               ELSE [i \in DOMAIN keep |-> full[keep[i] + 1]]
      Ix(jx, t) == LET r == UnFlat(rest, t) IN
                   [i \in 1..Len(full) |->
                      IF In(i-1, keep)
                      THEN (IF kd THEN jx[i] ELSE jx[CHOOSE k \in DOMAIN keep : keep[k] = i-1])
                      ELSE r[i]]
  IN  Mk(outsh, LAMBDA jx : VSum([t \in Elems(rest) |-> FProd([i \in DOMAIN a |-> G(a[i], Ix(jx, t))])]))

\* what axis k of an array of n axes is, counted from 0
Ax(k, n) == IF k < 0 THEN k + n ELSE k

\* elements of p from position i on / up to
From(p, i) == SubSeq(p, i, Len(p))

\* NumPy's reduction of one axis or (Free) of all
Free == 99
LseAxis(A, ax, kd) ==
  IF ax = Free
  THEN [sh |-> IF kd THEN Ones(Len(A.sh)) ELSE <<>>, v |-> <<FLogSumExp(A.v)>>]
  ELSE LET k == Ax(ax, Len(A.sh)) + 1
           R(ix) == FLogSumExp([t \in 1..A.sh[k] |-> G(A, InsAt(ix, k, t-1))])
       IN  IF kd THEN Mk([A.sh EXCEPT ![k] = 1], LAMBDA ix : R(RemAt(ix, k)))
           ELSE Mk(RemAt(A.sh, k), R)
NanMean(v) == LET ok == SelectSeq(v, LAMBDA x : ~FIsNaN(x)) IN FDiv(VSum(ok), FInt(Len(ok)))
MeanAxis(A, ax, kd) ==
  IF ax = Free
  THEN [sh |-> IF kd THEN Ones(Len(A.sh)) ELSE <<>>, v |-> <<NanMean(A.v)>>]
  ELSE LET k == Ax(ax, Len(A.sh)) + 1
           R(ix) == NanMean([t \in 1..A.sh[k] |-> G(A, InsAt(ix, k, t-1))])
       IN  IF kd THEN Mk([A.sh EXCEPT ![k] = 1], LAMBDA ix : R(RemAt(ix, k)))
           ELSE Mk(RemAt(A.sh, k), R)

\* diagonal array of the last n axes, the last m of which are diagonal pairs already
MakeDiag(A, n, m) ==
  IF n = m THEN A ELSE
  LET sh == Pad(A.sh, n + m)
      d == Len(sh)
      \* A: plates, i (n-m axes), j (m), j' (m)  ->  plates, i, j, i', j'
      pl == SubSeq(sh, 1, d - n - m)
      i_ == SubSeq(sh, d - n - m + 1, d - 2*m)
      j_ == SubSeq(sh, d - 2*m + 1, d - m)
      P == Len(pl)
      q == n - m
      X == [sh |-> sh, v |-> A.v]
  IN  Mk(pl \o i_ \o j_ \o i_ \o j_, LAMBDA ix :
        LET a == SubSeq(ix, P+1, P+q)
            b == SubSeq(ix, P+q+1, P+q+m)
            a2 == SubSeq(ix, P+q+m+1, P+2*q+m)
            b2 == SubSeq(ix, P+2*q+m+1, P+2*q+2*m)
        IN  IF a = a2 THEN G(X, SubSeq(ix, 1, P) \o a \o b \o b2) ELSE F0)
GetDiag(A, n, m) ==
  IF n = m THEN A ELSE
  LET d == Len(A.sh)
      pl == SubSeq(A.sh, 1, d - 2*n)
      i_ == SubSeq(A.sh, d - 2*n + 1, d - n - m)
      j_ == LastN(A.sh, m)
      P == Len(pl)
      q == n - m
  IN  Mk(pl \o i_ \o j_ \o j_, LAMBDA ix :
        LET a == SubSeq(ix, P+1, P+q)
            b == SubSeq(ix, P+q+1, P+q+m)
            b2 == SubSeq(ix, P+q+m+1, P+q+2*m)
        IN  G(A, SubSeq(ix, 1, P) \o a \o b \o a \o b2))

\* position of offset k in consecutive blocks of the given sizes: <<block, offset>>
RECURSIVE BlockOf(_, _)
BlockOf(sizes, k) == IF k < Head(sizes) THEN <<1, k>>
                     ELSE LET r == BlockOf(Tail(sizes), k - Head(sizes)) IN <<r[1] + 1, r[2]>>
Sizes(a, k) == [i \in DOMAIN a |-> a[i].sh[Len(a[i].sh) - k]]

BlockBanded(D, B) ==     \* sequences of matrices
  LET n == Sizes(D, 0) IN
  Mk(<<SumInt(n), SumInt(n)>>, LAMBDA ix :
     LET r == BlockOf(n, ix[1])
         c == BlockOf(n, ix[2])
     IN  IF r[1] = c[1] THEN G(D[r[1]], <<r[2], c[2]>>)
         ELSE IF c[1] = r[1] + 1 THEN G(B[r[1]], <<r[2], c[2]>>)
         ELSE IF r[1] = c[1] + 1 THEN G(B[c[1]], <<c[2], r[2]>>)
         ELSE F0)

\* a block-tridiagonal symmetric matrix, its inverse blocks, solution and log-det
BandSolve(A, B, y) ==
  LET pv == BC(<<FrontN(A.sh, 3), FrontN(B.sh, 3)>>)
      py == BC(<<pv, FrontN(y.sh, 2)>>)
      N == y.sh[Len(y.sh) - 1]
      D == y.sh[Len(y.sh)]
      W == N * D
      Full(ix) == TLCEval([t \in 1..(W*W) |->
         LET i == (t-1) \div W
             j == (t-1) % W
             n == i \div D
             m == j \div D
         IN  IF n = m THEN G(A, ix \o <<n, i % D, j % D>>)
             ELSE IF m = n+1 THEN G(B, ix \o <<n, i % D, j % D>>)
             ELSE IF n = m+1 THEN G(B, ix \o <<m, j % D, i % D>>) ELSE F0])
      Invs == TLCEval([e \in Elems(pv) |-> MInv(W, Full(UnFlat(pv, e)))])
      dv == Len(pv)
      IAt(ix, n, i, m, j) == Invs[BFlat(pv, ix)][(n*D + i)*W + m*D + j + 1]
  IN  << Mk(pv \o <<N, D, D>>, LAMBDA ix : IAt(SubSeq(ix, 1, dv), ix[dv+1], ix[dv+2], ix[dv+1], ix[dv+3])),
         Mk(pv \o <<N-1, D, D>>, LAMBDA ix : IAt(SubSeq(ix, 1, dv), ix[dv+1], ix[dv+2], ix[dv+1] + 1, ix[dv+3])),
         Mk(py \o <<N, D>>, LAMBDA ix :
            LET p == FrontN(ix, 2)
                n == ix[Len(ix)-1]
                i == ix[Len(ix)]
            IN  FSumTo(LAMBDA t : FMul(IAt(p, n, i, (t-1) \div D, (t-1) % D),
                                       G(y, p \o <<(t-1) \div D, (t-1) % D>>)), W)),
         Mk(pv, LAMBDA ix : MLogDet(W, Full(ix))) >>

Expected(f, a, p) ==
  CASE f = "inner" -> <<Inner_(a, p[1])>>
    [] f = "outer" ->
         LET n == p[1]
             pl == BC(<<FrontN(a[1].sh, n), FrontN(a[2].sh, n)>>)
             d == Len(pl)
         IN  <<Mk(pl \o LastN(a[1].sh, n) \o LastN(a[2].sh, n), LAMBDA ix :
                  FMul(G(a[1], FrontN(ix, n)), G(a[2], SubSeq(ix, 1, d) \o LastN(ix, n))))>>
    [] f = "dot" -> <<Chain(a)>>
    [] f = "mmdot" -> IF p[1] = 0 THEN <<Mk(BC(Shapes(a)), LAMBDA ix : FMul(G(a[1], ix), G(a[2], ix)))>> ELSE <<MM(a[1], a[2])>>
    [] f = "mvdot" ->
         LET n == p[1]
             pl == BC(<<FrontN(a[1].sh, 2*n), FrontN(a[2].sh, n)>>)
             k == LastN(a[2].sh, n)
             d == Len(pl)
         IN  <<Mk(pl \o SubSeq(a[1].sh, Len(a[1].sh) - 2*n + 1, Len(a[1].sh) - n), LAMBDA ix :
                  FSumTo(LAMBDA t : FMul(G(a[1], ix \o UnFlat(k, t)), G(a[2], SubSeq(ix, 1, d) \o UnFlat(k, t))), Prod(k)))>>
    [] f = "tracedot" ->
         LET pl == BC(<<FrontN(a[1].sh, 2), FrontN(a[2].sh, 2)>>)
             k == LastN(a[1].sh, 2)
         IN  <<Mk(pl, LAMBDA ix : FSumTo(LAMBDA t : FMul(G(a[1], ix \o UnFlat(k, t)), G(a[2], ix \o Rev(UnFlat(k, t)))), Prod(k)))>>
    [] f = "transpose" ->
         LET n == p[1]
             pl == FrontN(a[1].sh, 2*n)
         IN  <<Mk(pl \o LastN(a[1].sh, n) \o SubSeq(a[1].sh, Len(pl)+1, Len(pl)+n), LAMBDA ix :
                  G(a[1], SubSeq(ix, 1, Len(pl)) \o LastN(ix, n) \o SubSeq(ix, Len(pl)+1, Len(pl)+n)))>>
    [] f \in {"inv", "chol_inv"} ->
         LET A == FlatM(a[1], p[1])
             n == Size(a[1], p[1])
             pl == FrontN(A.sh, 2)
             I == TLCEval([e \in Elems(pl) |-> MInv(n, MatAt(A, UnFlat(pl, e)))])
         IN  <<[sh |-> a[1].sh, v |-> Cat(I)]>>
    [] f \in {"chol_logdet", "logdet_cov"} ->
         LET A == FlatM(a[1], p[1])
             n == Size(a[1], p[1])
         IN  <<Mk(FrontN(A.sh, 2), LAMBDA ix : MLogDet(n, MatAt(A, ix)))>>
    [] f = "logdet_tri" -> <<Scalar(FSumTo(LAMBDA i : FLog(FAbs(G(a[1], <<i-1, i-1>>))), a[1].sh[1]))>>
    [] f = "chol_solve" ->
         \* p: ndim, matrix
         LET n == p[1]
             A == FlatM(a[1], n)
             m == Size(a[1], n)
             pa == FrontN(A.sh, 2)
             Iv == TLCEval([e \in Elems(pa) |-> MInv(m, MatAt(A, UnFlat(pa, e)))])
             IA(ix, i, j) == Iv[BFlat(pa, ix)][i*m + j + 1]
         IN  IF p[2] = 0
             THEN LET B == FlatV(a[2], n)
                      pl == BC(<<pa, FrontN(B.sh, 1)>>)
                      R == Mk(pl \o <<m>>, LAMBDA ix : FSumTo(LAMBDA t :
                              FMul(IA(FrontN(ix, 1), ix[Len(ix)], t-1), G(B, FrontN(ix, 1) \o <<t-1>>)), m))
                  IN  <<[sh |-> pl \o LastN(a[2].sh, n), v |-> R.v]>>
             ELSE LET B == [sh |-> FrontN(a[2].sh, 2*n) \o <<m, Size(a[2], n)>>, v |-> a[2].v]
                      q == B.sh[Len(B.sh)]
                      pl == BC(<<pa, FrontN(B.sh, 2)>>)
                      R == Mk(pl \o <<m, q>>, LAMBDA ix : FSumTo(LAMBDA t :
                              FMul(IA(FrontN(ix, 2), ix[Len(ix)-1], t-1), G(B, FrontN(ix, 2) \o <<t-1, ix[Len(ix)]>>)), m))
                  IN  <<[sh |-> pl \o LastN(a[1].sh, n) \o LastN(a[2].sh, n), v |-> R.v]>>
    [] f = "block_banded_solve" -> BandSolve(a[1], a[2], a[3])
    [] f = "block_banded" -> LET n == p[1] IN <<BlockBanded(SubSeq(a, 1, n), SubSeq(a, n+1, Len(a)))>>
    [] f = "block_diag" ->
         LET pl == BC([i \in DOMAIN a |-> FrontN(a[i].sh, 2)])
             d == Len(pl)
         IN  <<Mk(pl \o <<SumInt(Sizes(a, 1)), SumInt(Sizes(a, 0))>>, LAMBDA ix :
                  LET r == BlockOf(Sizes(a, 1), ix[d+1])
                      c == BlockOf(Sizes(a, 0), ix[d+2])
                  IN  IF r[1] = c[1] THEN G(a[r[1]], SubSeq(ix, 1, d) \o <<r[2], c[2]>>) ELSE F0)>>
    [] f = "concatenate" ->
         \* p[1] < 0: the axis
         LET k == -p[1]                     \* k-th axis from the right
             cut(s) == [s EXCEPT ![Len(s) + 1 - k] = 1]
             full == BC([i \in DOMAIN a |-> cut(a[i].sh)])
             n == [i \in DOMAIN a |-> a[i].sh[Len(a[i].sh) + 1 - k]]
             at == Len(full) + 1 - k
         IN  <<Mk([full EXCEPT ![at] = SumInt(n)], LAMBDA ix :
                  LET b == BlockOf(n, ix[at]) IN G(a[b[1]], [ix EXCEPT ![at] = b[2]]))>>
    [] f = "broadcast" ->
         LET full == BC(Shapes(a)) IN [i \in DOMAIN a |-> Mk(full, LAMBDA ix : G(a[i], ix))]
    \* ---------------------------------------------------------- axes
    [] f = "flatten_axes" ->
         LET d == Len(a[1].sh)
             RECURSIVE Sz(_, _)
             Sz(k, q) == IF q = <<>> THEN <<>> ELSE <<Prod(SubSeq(a[1].sh, k, k + Head(q) - 1))>> \o Sz(k + Head(q), Tail(q))
         IN  <<[sh |-> FrontN(a[1].sh, SumInt(p)) \o Sz(d - SumInt(p) + 1, p), v |-> a[1].v]>>
    [] f = "reshape_axes" ->    \* p: number of groups, then their axes with lengths before
         LET n == p[1] IN <<[sh |-> FrontN(a[1].sh, n) \o From(p, 2), v |-> a[1].v]>>
    [] f = "T" -> <<Mk(FrontN(a[1].sh, 2) \o Rev(LastN(a[1].sh, 2)), LAMBDA ix : G(a[1], FrontN(ix, 2) \o Rev(LastN(ix, 2))))>>
    [] f = "symm" -> <<Mk(a[1].sh, LAMBDA ix : FMul(FHalf, FAdd(G(a[1], ix), G(a[1], FrontN(ix, 2) \o Rev(LastN(ix, 2))))))>>
    [] f = "diagonal" -> <<Mk(FrontN(a[1].sh, 1), LAMBDA ix : G(a[1], ix \o LastN(ix, 1)))>>
    [] f = "moveaxis" ->
         LET d == Len(a[1].sh)
             i == Ax(p[1], d) + 1
             j == Ax(p[2], d) + 1
             Mv(s) == InsAt(RemAt(s, i), j, s[i])
         IN  <<Mk(Mv(a[1].sh), LAMBDA ix : G(a[1], InsAt(RemAt(ix, j), i, ix[j])))>>
    [] f = "add_axes" ->       \* p: num, axis (as NumPy inserts it, one after the other)
         LET RECURSIVE Ad(_, _)
             Ad(sh, n) == IF n = 0 THEN sh
                          ELSE Ad(InsAt(sh, (IF p[2] < 0 THEN p[2] + Len(sh) + 1 ELSE p[2]) + 1, 1), n-1)
         IN  <<[sh |-> Ad(a[1].sh, p[1]), v |-> a[1].v]>>
    [] f = "squeeze" ->
         LET RECURSIVE Sq(_)
             Sq(sh) == IF sh # <<>> /\ Head(sh) = 1 THEN Sq(Tail(sh)) ELSE sh
         IN  <<[sh |-> Sq(a[1].sh), v |-> a[1].v]>>
    [] f = "squeeze_to_dim" -> <<[sh |-> LastN(a[1].sh, p[1]), v |-> a[1].v]>>
    [] f = "atleast_nd" -> <<[sh |-> Pad(a[1].sh, p[1]), v |-> a[1].v]>>
    [] f = "make_equal_ndim" ->
         LET n == Len(BC(Shapes(a))) IN [i \in DOMAIN a |-> [sh |-> Pad(a[i].sh, n), v |-> a[i].v]]
    \* ---------------------------------------------------------- sums
    [] f = "sum_to_dim" -> IF Len(a[1].sh) <= p[1] THEN <<a[1]>> ELSE <<SumMulTo(a, LastN(a[1].sh, p[1]), <<-1>>, 0)>>
    [] f = "sum_to_shape" -> <<SumMulTo(a, p, <<-1>>, 0)>>
    [] f = "repeat_to_shape" -> <<Mk(p, LAMBDA ix : G(a[1], ix))>>
    [] f = "sum_multiply_to_plates" ->
         \* p: ndim, number of target plates, target plates, [source plates]
         LET to == SubSeq(p, 3, 2 + p[2])
             from == SubSeq(p, 3 + p[2], Len(p))
         IN  <<SumMulTo(a, to, from, p[1])>>
    [] f = "sum_multiply" ->
         \* p: sum (1) or keep (0) the listed axes, keepdims, axes... (Free: not given)
         LET d == Len(BC(Shapes(a)))
             ax == IF Len(p) = 3 /\ p[3] = Free THEN <<>> ELSE [i \in 1..(Len(p) - 2) |-> Ax(p[i + 2], d)]
             none == Len(p) = 3 /\ p[3] = Free
             S(keep(_)) == LET RECURSIVE C(_)
                               C(i) == IF i = d THEN <<>> ELSE (IF keep(i) THEN <<i>> ELSE <<>>) \o C(i+1)
                           IN  C(0)
             kept == IF p[1] = 1 THEN (IF none THEN <<>> ELSE S(LAMBDA i : ~In(i, ax)))
                     ELSE (IF none THEN S(LAMBDA i : TRUE) ELSE S(LAMBDA i : In(i, ax)))
         IN  <<SumAxes(a, kept, p[2] = 1)>>
    [] f = "logsumexp" -> <<LseAxis(a[1], p[1], p[2] = 1)>>
    [] f = "mean" -> <<MeanAxis(a[1], p[1], p[2] = 1)>>
    [] f = "normalized_exp" ->
         LET l == TLCEval(LseAxis(a[1], -1, TRUE)) IN
         <<Mk(a[1].sh, LAMBDA ix : FExp(FSub(G(a[1], ix), G(l, ix)))), l>>
    [] f = "multidigamma" -> <<Mk(a[1].sh, LAMBDA ix : FMultiDigamma(p[1], G(a[1], ix)))>>
    \* ---------------------------------------------------------- diagonals
    [] f = "make_diag" -> <<MakeDiag(a[1], p[1], p[2])>>
    [] f = "get_diag" -> <<GetDiag(a[1], p[1], p[2])>>
    [] f = "diag" -> <<MakeDiag(a[1], p[1], 0)>>
    [] f = "identity" -> <<Mk(p \o p, LAMBDA ix : IF SubSeq(ix, 1, Len(p)) = LastN(ix, Len(p)) THEN F1 ELSE F0)>>
    \* ---------------------------------------------------------- picking
    [] f = "put_simple" ->
         \* a: values; p: axis (negative), length, number of index axes, index shape, indices
         LET ia == p[3]
             ish == SubSeq(p, 4, 3 + ia)
             ind == SubSeq(p, 4 + ia, Len(p))
             k == -p[1] - 1                       \* axes after
             y == [sh |-> Pad(a[1].sh, k), v |-> a[1].v]
             n == Len(y.sh)
             \* the part of the values' shape before the indexed axes
             before == IF n > k + ia THEN SubSeq(y.sh, 1, n - k - ia) ELSE <<>>
             after == LastN(y.sh, k)
             nb == Len(before)
         IN  <<Mk(before \o <<p[2]>> \o after, LAMBDA ix :
                  VSum([t \in 1..Prod(ish) |->
                     IF Ax(ind[t], p[2]) = ix[nb + 1]
                     THEN G(y, SubSeq(ix, 1, nb) \o UnFlat(ish, t) \o LastN(ix, k)) ELSE F0]))>>
    [] f = "find_set_index" ->
         LET n == From(p, 2) IN <<SInt(BlockOf(n, Ax(p[1], SumInt(n)))[1] - 1)>>
    [] f = "grid" -> <<Mk(<<Len(a[1].v) * Len(a[2].v), 2>>, LAMBDA ix :
                         IF ix[2] = 0 THEN a[1].v[(ix[1] % Len(a[1].v)) + 1] ELSE a[2].v[(ix[1] \div Len(a[1].v)) + 1])>>
    [] f = "ceildiv" -> <<SInt(CHOOSE q \in (-100)..100 : (q-1) * p[2] < p[1] /\ p[1] <= q * p[2])>>
    \* ---------------------------------------------------------- shapes (p: lengths, then the shapes)
    [] f \in {"broadcasted_shape", "multiply_shapes", "is_shape_subset", "axes_to_collapse", "safe_indices",
              "broadcasting_multiplier"} ->
         LET m == p[1]
             n == SubSeq(p, 2, m + 1)
             S(i) == SubSeq(p, m + 2 + SumInt(SubSeq(n, 1, i-1)), m + 1 + SumInt(SubSeq(n, 1, i)))
             shs == [i \in 1..m |-> S(i)]
         IN (CASE f = "broadcasted_shape" -> <<Ints(BC(shs))>>
               [] f = "multiply_shapes" ->
                    LET d == Len(BC([i \in 1..m |-> Ones(n[i])])) IN
                    <<Ints([i \in 1..d |-> Prod([k \in 1..m |-> Pad(shs[k], d)[i]])])>>
               [] f = "is_shape_subset" -> <<SBool(IsSubShape(shs[1], shs[2]))>>
               [] f = "axes_to_collapse" ->
                    LET x == shs[1]
                        y == Pad(shs[2], Len(x))
                        o == Len(y) - Len(x)
                        RECURSIVE C(_)
                        C(i) == IF i > Len(x) THEN <<>>
                                ELSE (IF x[i] # 1 /\ y[o + i] = 1 THEN <<i - 1 - Len(x)>> ELSE <<>>) \o C(i+1)
                    IN  <<Ints(C(1))>>
               [] f = "safe_indices" ->
                    LET q == Min2(n[1], n[2])
                        i_ == LastN(shs[1], q)
                        s_ == LastN(shs[2], q)
                    IN  <<Ints([k \in 1..q |-> Min2(i_[k], s_[k] - 1)])>>
               [] f = "broadcasting_multiplier" ->
                    <<SInt(Prod([j \in 1..n[1] |->
                        IF \A k \in 2..m : LET x == Pad(shs[k], n[1]) IN x[j] = 1 THEN shs[1][j] ELSE 1]))>>)
    \* ---------------------------------------------------------- densities
    [] f = "alpha_beta_recursion" ->
         LET l0 == a[1]
             lP == a[2]
             K == l0.sh[Len(l0.sh)]
             N == lP.sh[Len(lP.sh) - 2]
             pl == BC(<<FrontN(l0.sh, 1), FrontN(lP.sh, 3)>>)
             R == TLCEval([e \in Elems(pl) |->
                    LET ix == UnFlat(pl, e) IN
                    MomCMC(N + 1, K, <<VecAt(l0, ix),
                                       [t \in 1..(N*K*K) |-> G(lP, ix \o UnFlat(<<N, K, K>>, t))]>>)])
         IN  << [sh |-> pl \o <<K>>, v |-> Cat([e \in Elems(pl) |-> R[e][1][1]])],
                [sh |-> pl \o <<N, K, K>>, v |-> Cat([e \in Elems(pl) |-> R[e][1][2]])],
                [sh |-> pl, v |-> [e \in Elems(pl) |-> R[e][2]]] >>
    [] f = "gaussian_logpdf" ->      \* a: y, mu, V
         LET D == Len(a[1].v)
             r == VSub(a[1].v, a[2].v)
         IN  <<Scalar(VSum(<<FMul(FRat(-D, 2), Log2Pi), FMul(FHalf, MLogDet(D, a[3].v)),
                             FMul(FRat(-1, 2), VDot(r, MMul(D, D, 1, a[3].v, r)))>>))>>
    [] f = "gaussian_entropy" ->     \* a: V
         LET D == a[1].sh[1] IN
         <<Scalar(FAdd(FMul(FRat(D, 2), FAdd(F1, Log2Pi)), FMul(FRat(-1, 2), MLogDet(D, a[1].v))))>>
    [] f = "gamma_logpdf" ->         \* a: x, shape, rate
         LET x == a[1].v[1]
             s == a[2].v[1]
             b == a[3].v[1]
         IN  <<Scalar(VSum(<<FMul(s, FLog(b)), FNeg(FLgamma(s)), FMul(FSub(s, F1), FLog(x)), FNeg(FMul(b, x))>>))>>
    [] f = "gamma_entropy" ->
         LET s == a[1].v[1]
             b == a[2].v[1]
         IN  <<Scalar(VSum(<<s, FNeg(FLog(b)), FLgamma(s), FMul(FSub(F1, s), FDigamma(s))>>))>>
    [] f = "t_logpdf" ->             \* a: x, mu, S (scale matrix), nu
         LET D == Len(a[1].v)
             r == VSub(a[1].v, a[2].v)
             nu == a[4].v[1]
             z == VDot(r, MMul(D, D, 1, MInv(D, a[3].v), r))
             h == FMul(FHalf, FAdd(nu, FInt(D)))
         IN  <<Scalar(VSum(<<FLgamma(h), FNeg(FLgamma(FMul(FHalf, nu))),
                             FMul(FRat(-D, 2), FLog(FMul(nu, FParse("3.141592653589793")))),
                             FMul(FRat(-1, 2), MLogDet(D, a[3].v)),
                             FNeg(FMul(h, FLog(FAdd(F1, FDiv(z, nu)))))>>))>>
    [] f = "gaussian_gamma_to_t" ->  \* a: mu, Cov, shape, rate
         <<a[1], Mk(a[2].sh, LAMBDA ix : FDiv(FMul(G(a[2], ix), G(a[4], FrontN(ix, 2))), G(a[3], FrontN(ix, 2)))),
           Mk(a[3].sh, LAMBDA ix : FMul(FInt(2), G(a[3], ix)))>>
    [] f = "logodds_to_probability" -> <<Mk(a[1].sh, LAMBDA ix : FDiv(F1, FAdd(F1, FExp(FNeg(G(a[1], ix))))))>>
    [] f = "rmse" -> <<Scalar(FSqrt(FDiv(VDot(VSub(a[1].v, a[2].v), VSub(a[1].v, a[2].v)), FInt(Len(a[1].v)))))>>
    [] f = "zipper_merge" -> <<[sh |-> <<Len(a) * Len(a[1].v)>>,
                               v |-> [t \in 1..(Len(a) * Len(a[1].v)) |-> a[((t-1) % Len(a)) + 1].v[((t-1) \div Len(a)) + 1]]]>>
    [] OTHER -> <<>>

\* relations
Related(f, a, p, r, rtol, atol) ==
  CASE f = "chol" ->       \* r: upper triangular (the rest is not defined) with U'U = C
         LET n == Size(a[1], p[1])
             A == FlatM(a[1], p[1])
             R_ == FlatM(r[1], p[1])
             pl == FrontN(A.sh, 2)
             Up(ix, i, j) == IF i <= j THEN G(R_, ix \o <<i, j>>) ELSE F0
         IN  /\ r[1].sh = a[1].sh
             /\ \A e \in Elems(pl) :
                  LET ix == UnFlat(pl, e) IN
                  /\ \A i \in 0..(n-1) : FLt(F0, Up(ix, i, i))
                  /\ VClose([t \in 1..(n*n) |-> FSumTo(LAMBDA k :
                               FMul(Up(ix, k-1, (t-1) \div n), Up(ix, k-1, (t-1) % n)), n)], MatAt(A, ix), rtol, atol)
    [] f = "invpsi" ->
         /\ r[1].sh = a[1].sh
         /\ \A e \in DOMAIN a[1].v : FLt(F0, r[1].v[e]) /\ FClose(FDigamma(r[1].v[e]), a[1].v[e], rtol, atol)
    [] f = "solve_triangular" ->   \* a: U (upper), B; p: trans
         LET n == a[1].sh[Len(a[1].sh)]
             pl == BC(<<FrontN(a[1].sh, 2), FrontN(a[2].sh, 1)>>)
             Ua(ix, i, j) == IF p[1] = 0 THEN G(a[1], ix \o <<i, j>>) ELSE G(a[1], ix \o <<j, i>>)
         IN  /\ r[1].sh = pl \o <<n>>
             /\ \A e \in Elems(pl) :
                  LET ix == UnFlat(pl, e) IN
                  VClose([i \in 1..n |-> FSumTo(LAMBDA t : FMul(Ua(ix, i-1, t-1), G(r[1], ix \o <<t-1>>)), n)],
                         VecAt(a[2], ix), rtol, atol)
    [] f = "intervals" ->          \* p: N, length, amount, gap
         LET x == r[1].v
             n == p[3]
             ge(u, v) == FLe(v, u)
         IN  /\ r[1].sh = <<n>>
             /\ n = 0 \/ (ge(x[1], F0) /\ FLe(FAdd(x[n], FInt(p[2])), FInt(p[1])))
             /\ \A i \in 1..(n-1) : ge(x[i+1], FAdd(x[i], FInt(p[2] + p[4])))
    \* ---------------------------------------------------------- draws
    [] f = "draw_categorical" ->    \* a: probabilities; p: shape of the draw
         /\ r[1].sh = p
         /\ \A e \in Elems(p) : \E k \in 1..a[1].sh[Len(a[1].sh)] :
               FEq(r[1].v[e], FInt(k-1)) /\ FLt(F0, G(a[1], UnFlat(p, e) \o <<k-1>>))
    [] f = "draw_bernoulli" ->
         /\ r[1].sh = p
         /\ \A e \in Elems(p) : \/ FEq(r[1].v[e], F0) /\ FLt(G(a[1], UnFlat(p, e)), F1)
                                \/ FEq(r[1].v[e], F1) /\ FLt(F0, G(a[1], UnFlat(p, e)))
    [] f = "draw_multinomial" ->    \* a: trials, probabilities
         LET K == a[2].sh[Len(a[2].sh)] IN
         /\ r[1].sh = p \o <<K>>
         /\ \A e \in Elems(p) : LET ix == UnFlat(p, e) IN
               /\ FEq(FSumTo(LAMBDA k : G(r[1], ix \o <<k-1>>), K), G(a[1], ix))
               /\ \A k \in 0..(K-1) : LET x == G(r[1], ix \o <<k>>) IN
                     FLe(F0, x) /\ (FEq(x, F0) \/ FLt(F0, G(a[2], ix \o <<k>>)))
    [] f = "draw_dirichlet" ->
         LET K == a[1].sh[Len(a[1].sh)] IN
         /\ r[1].sh = p \o <<K>>
         /\ \A e \in DOMAIN r[1].v : FLe(F0, r[1].v[e])
         /\ \A e \in Elems(p) : FClose(VSum(VecAt(r[1], UnFlat(p, e))), F1, rtol, atol)
    [] f = "draw_gamma" -> r[1].sh = p /\ \A e \in DOMAIN r[1].v : FLt(F0, r[1].v[e])
    [] f \in {"draw_pd", "draw_correlation"} ->       \* p: D, size
         LET D == p[1]
             M(e) == TLCEval(MatAt(r[1], UnFlat(From(p, 2), e)))
         IN  /\ r[1].sh = From(p, 2) \o <<D, D>>
             /\ \A e \in Elems(From(p, 2)) :
                  /\ VClose(M(e), MT(D, D, M(e)), rtol, atol)
                  /\ f = "draw_pd" => MLogDetPD(D, M(e))
                  /\ f = "draw_correlation" => \A i \in 1..D : FClose(M(e)[(i-1)*D + i], F1, rtol, atol)
    [] f = "draw_orth" ->
         LET D == p[1]
             Q == MatAt(r[1], <<>>)
         IN  r[1].sh = <<D, D>> /\ VClose(MMul(D, D, D, Q, MT(D, D, Q)), [t \in 1..(D*D) |-> IF (t-1) % (D+1) = 0 THEN F1 ELSE F0], rtol, atol)
    [] f = "draw_svd" ->           \* a: singular values; the characteristic polynomial of X X' at a few points
         LET D == p[1]
             X == MatAt(r[1], <<>>)
             XX == MMul(D, D, D, X, MT(D, D, X))
         IN  /\ r[1].sh = <<D, D>>
             /\ \A c \in 1..D :
                  FClose(MLogDet(D, [t \in 1..(D*D) |-> IF (t-1) % (D+1) = 0 THEN FAdd(XX[t], FInt(c)) ELSE XX[t]]),
                         FSumTo(LAMBDA i : FLog(FAdd(FMul(a[1].v[i], a[1].v[i]), FInt(c))), D), rtol, atol)
    [] OTHER -> FALSE

Relational == {"chol", "invpsi", "solve_triangular", "intervals", "draw_categorical", "draw_bernoulli", "draw_multinomial",
               "draw_dirichlet", "draw_gamma", "draw_pd", "draw_correlation", "draw_orth", "draw_svd"}
===============================================================================
