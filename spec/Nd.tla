-------------------------------- MODULE Nd ---------------------------------
(***************************************************************************)
(* N-dimensional arrays as NumPy has them: a shape is a sequence of        *)
(* naturals, an index a sequence of 0-based positions, an element number   *)
(* is 1-based and row-major.  Broadcasting is right-aligned, and an axis   *)
(* of length 1 answers for every position.  BFlat, UnFlat and Prod are     *)
(* evaluated by bp.F64Ov (SelfTest compares them with these definitions).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Prod(_)
Prod(sh) == IF sh = <<>> THEN 1 ELSE Head(sh) * Prod(Tail(sh))

\* element number of shape sh selected by the (possibly longer) index idx
RECURSIVE BFlat(_, _)
BFlat(sh, idx) ==
  IF sh = <<>> THEN 1
  ELSE LET n == Len(sh)
           v == IF sh[n] = 1 THEN 0 ELSE idx[Len(idx)]
       IN  (BFlat(SubSeq(sh, 1, n-1), SubSeq(idx, 1, Len(idx)-1)) - 1) * sh[n] + v + 1

\* index of element number e of an array of shape sh
RECURSIVE UnFlat(_, _)
UnFlat(sh, e) ==
  IF sh = <<>> THEN <<>>
  ELSE LET n == Len(sh)
       IN  UnFlat(SubSeq(sh, 1, n-1), ((e-1) \div sh[n]) + 1) \o <<(e-1) % sh[n]>>

Elems(sh) == 1..Prod(sh)
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
LastN(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))       \* last n entries
FrontN(s, n) == SubSeq(s, 1, Len(s) - n)               \* all but the last n
Ones(n) == [i \in 1..n |-> 1]
\* pad a shape with leading ones to n axes
Pad(sh, n) == IF Len(sh) >= n THEN sh ELSE Ones(n - Len(sh)) \o sh
\* insert v into s so that it becomes the entry at 1-based position k
InsAt(s, k, v) == SubSeq(s, 1, k-1) \o <<v>> \o SubSeq(s, k, Len(s))
RemAt(s, k) == SubSeq(s, 1, k-1) \o SubSeq(s, k+1, Len(s))
\* sh broadcasts to full without changing it
IsSubShape(sh, full) ==
  /\ Len(sh) <= Len(full)
  /\ \A i \in 1..Len(sh) : LET f == full[Len(full) - Len(sh) + i] IN sh[i] = 1 \/ sh[i] = f
\* NumPy broadcasting of two shapes; <<-1>> if incompatible
Broadcast2(a, b) ==
  LET n == Max2(Len(a), Len(b))
      x == Pad(a, n)
      y == Pad(b, n)
  IN  IF \A i \in 1..n : x[i] = y[i] \/ x[i] = 1 \/ y[i] = 1
      THEN [i \in 1..n |-> IF x[i] = 1 THEN y[i] ELSE x[i]]
      ELSE <<-1>>
=============================================================================
