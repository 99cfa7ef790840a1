-------------------------------- MODULE Graph --------------------------------
(***************************************************************************)
(* Building and taking apart model graphs: which constructor calls and     *)
(* observations are accepted, which plates and shapes the nodes get, which *)
(* elements take part, who is whose child, what is left after deletions.   *)
(*                                                                         *)
(* The state of the graph is the list of the nodes built so far.  TLC      *)
(* generates behaviours (valid and invalid calls mixed); the harness plays *)
(* them on the real classes, compares everything observable after every    *)
(* call, and finally builds a second graph directly from the final state:  *)
(* histories that lead to the same state must not be distinguishable.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxCalls, MaxNodes

RE(S) == RandomElement(S)
One(S) == CHOOSE x \in S : TRUE
Cat(a, b) == a \o b
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

(***************************************************************************)
(* Shapes (right-aligned, as everywhere)                                   *)
(***************************************************************************)
At(sh, j) == IF j < Len(sh) THEN sh[Len(sh) - j] ELSE 1      \* j-th axis from the end
Sub(a, b) == Len(a) <= Len(b) /\ \A j \in 0..(Len(a) - 1) : At(a, j) = 1 \/ At(a, j) = At(b, j)
MaxLen(ss) == Max({0} \cup {Len(ss[i]) : i \in DOMAIN ss})
Compatible(ss) == \A j \in 0..(MaxLen(ss) - 1) : Cardinality({At(ss[i], j) : i \in DOMAIN ss} \ {1}) <= 1
Bcast(ss) ==
  LET n == MaxLen(ss) IN
  [p \in 1..n |-> LET big == {At(ss[i], n - p) : i \in DOMAIN ss} \ {1} IN
                  IF big = {} THEN 1 ELSE CHOOSE x \in big : TRUE]
RECURSIVE Idx(_)
Idx(sh) == IF sh = <<>> THEN {<<>>}
           ELSE {<<i>> \o r : i \in 0..(Head(sh) - 1), r \in Idx(Tail(sh))}
\* the element of an array of shape sh that an element e of a larger array uses
Proj(e, sh) == [p \in 1..Len(sh) |-> IF sh[p] = 1 THEN 0 ELSE e[Len(e) - Len(sh) + p]]

(***************************************************************************)
(* Nodes and arguments                                                     *)
(*                                                                         *)
(* A node: type t, kind k of its moments with shape s and number q,        *)
(* plates pl, arguments a, option o, observed elements obs.                *)
(* An argument: node n (0: a constant array), seen as kind k, shape s,     *)
(* number q and plates pl; bad: constant outside of its domain.            *)
(***************************************************************************)
VARIABLES N, log, ph
vars == <<N, log, ph>>

Alive == {i \in DOMAIN N : N[i].alive}
Stoch(i) == N[i].st
ArgOf(i) ==
  LET x == N[i] IN
  CASE x.k = "gchain" -> [n |-> i, k |-> "gauss", s |-> x.s, q |-> 0, pl |-> Append(x.pl, x.q), bad |-> FALSE]
    [] x.k = "cchain" -> [n |-> i, k |-> "cat", s |-> x.s, q |-> 0, pl |-> Append(x.pl, x.q), bad |-> FALSE]
    [] OTHER -> [n |-> i, k |-> x.k, s |-> x.s, q |-> x.q, pl |-> x.pl, bad |-> FALSE]
Const(k, s, q, pl, bad) == [n |-> 0, k |-> k, s |-> s, q |-> q, pl |-> pl, bad |-> bad]

\* stochastic nodes that an argument depends on, with repetitions
RECURSIVE Ids(_)
Ids(i) == IF i = 0 THEN <<>>
          ELSE IF Stoch(i) THEN <<i>>
          ELSE LET f[m \in 0..Len(N[i].a)] == IF m = 0 THEN <<>> ELSE f[m-1] \o Ids(N[i].a[m].n)
                   all == f[Len(N[i].a)]
               IN  IF N[i].t = "concat"
                   THEN LET g[m \in 0..Len(all)] == IF m = 0 THEN <<>>
                                                   ELSE IF \E j \in 1..(m-1) : all[j] = all[m] THEN g[m-1]
                                                   ELSE Append(g[m-1], all[m])
                        IN  g[Len(all)]
                   ELSE all
Independent(as) ==
  LET f[m \in 0..Len(as)] == IF m = 0 THEN <<>> ELSE f[m-1] \o Ids(as[m].n)
      all == f[Len(as)]
  IN  Cardinality({all[j] : j \in DOMAIN all}) = Len(all)

(***************************************************************************)
(* Constructors: what is built from arguments as with option o             *)
(* [ok |-> FALSE] if nothing may be built.  pp: plates according to each   *)
(* argument.  in: axes inside of the node's plates that the argument has.  *)
(***************************************************************************)
No == [ok |-> FALSE]
Yes(k, s, q, pp) == [ok |-> TRUE, k |-> k, s |-> s, q |-> q, pp |-> pp]
Full(a) == a.pl \o a.s
Drop(sh, n) == SubSeq(sh, 1, IF Len(sh) > n THEN Len(sh) - n ELSE 0)

\* the last axes of the arguments become the axes of the variable
\* the first axes of an array can be seen as plates
Seen(a, nd) ==
  IF a.k # "gauss" \/ Len(a.s) <= nd THEN a
  ELSE [a EXCEPT !.pl = @ \o SubSeq(a.s, 1, Len(a.s) - nd), !.s = SubSeq(@, Len(@) - nd + 1, Len(@))]
First(as) ==               \* the first argument that is a node
  IF \A i \in DOMAIN as : as[i].n = 0 THEN Len(as)
  ELSE CHOOSE i \in DOMAIN as : as[i].n # 0 /\ \A j \in 1..(i-1) : as[j].n = 0
Axes(t, o, as) ==          \* number of axes that a Gaussian argument is seen with
  CASE t = "ard" \/ (t = "mix" /\ o.of = "ard") -> 0
    [] t \in {"gaussian", "gg", "dot", "cgauss", "gmc", "mix"} -> 1
    [] t \in {"concat", "add"} -> LET i == First(as) IN Len(as[i].s)
    [] OTHER -> 9
View(t, o, as) == [i \in DOMAIN as |-> Seen(as[i], Axes(t, o, as))]

RuleARD(a, sh) ==
  LET full == Bcast(<<Full(a[1]), a[2].pl>>)
      n == IF Len(full) < Len(sh) THEN Len(full) ELSE Len(sh) IN
  IF Sub(SubSeq(full, Len(full) - n + 1, Len(full)), sh) THEN Yes("gauss", sh, 0, <<Drop(full, Len(sh))>>) ELSE No
Stochastic == {"gamma", "ard", "gaussian", "wishart", "dirichlet", "beta", "cat", "bern", "binom", "multi", "pois",
               "mix", "cmc", "gmc", "gg"}
Kinds(t, o) ==                  \* kinds of the arguments
  CASE t = "gamma" -> <<"ga", "gamma">>
    [] t = "ard" -> <<"gauss", "gamma">>
    [] t = "gaussian" -> <<"gauss", "wish">>
    [] t = "wishart" -> <<"wn", "wish">>
    [] t = "dirichlet" -> <<"conc">>
    [] t = "beta" -> <<"conc">>
    [] t = "cat" -> <<"dir">>
    [] t = "bern" -> <<"beta">>
    [] t = "binom" -> <<"trials", "beta">>
    [] t = "multi" -> <<"trials", "dir">>
    [] t = "pois" -> <<"gamma">>
    [] t = "mix" -> <<"cat">> \o (CASE o.of = "ard" -> <<"gauss", "gamma">>
                                   [] o.of = "gaussian" -> <<"gauss", "wish">>
                                   [] o.of = "gamma" -> <<"ga", "gamma">>
                                   [] o.of = "pois" -> <<"gamma">>
                                   [] o.of = "cat" -> <<"dir">>)
    [] t = "cmc" -> <<"dir", "dir">>
    [] t = "gmc" -> <<"gauss", "wish", "gauss", "gamma">>
    [] t = "gg" -> <<"gauss", "wish", "ga", "gamma">>
    [] t \in {"add", "dot"} -> [i \in 1..o.n |-> "gauss"]
    [] t = "gate" -> <<"cat", o.k>>
    [] t = "concat" -> [i \in 1..o.n |-> o.k]
    [] t = "cgauss" -> <<"gauss", "gauss">>
    [] t \in {"take", "slice"} -> <<o.k>>
\* (those listed more often are tried more often)
TypeList == <<"gamma", "gamma", "ard", "ard", "ard", "ard", "gaussian", "gaussian", "wishart", "dirichlet", "beta", "cat", "cat", "bern",
              "binom", "multi", "pois", "mix", "mix", "cmc", "gmc", "gg", "add", "add", "dot", "dot", "gate", "gate", "concat", "concat",
              "cgauss", "take", "take", "take", "slice", "slice", "slice">>

\* plates after basic indexing with one index at the front or at the end
SliceOk(o, pl) ==
  CASE o.ix = "new" -> TRUE
    [] OTHER -> pl # <<>> /\ LET n == IF o.end THEN Last(pl) ELSE Head(pl) IN
                             IF o.ix = "int" THEN -n <= o.i /\ o.i < n ELSE o.i < n
SliceLen(o, n) == (n - o.i + o.step - 1) \div o.step
SlicePl(o, pl) ==
  CASE o.ix = "new" -> IF o.end THEN Append(pl, 1) ELSE <<1>> \o pl
    [] o.ix = "int" -> IF o.end THEN Front(pl) ELSE Tail(pl)
    [] o.ix = "range" -> IF o.end THEN Append(Front(pl), SliceLen(o, Last(pl))) ELSE <<SliceLen(o, Head(pl))>> \o Tail(pl)

Pls(a) == [i \in DOMAIN a |-> a[i].pl]
RECURSIVE Base(_, _, _)
Base(t, a, o) ==
  CASE t = "gamma" -> Yes("gamma", <<>>, 0, <<a[1].pl, a[2].pl>>)
    [] t = "ard" ->
         LET full == Bcast(<<Full(a[1]), a[2].pl>>)
             ok == Compatible(<<Full(a[1]), a[2].pl>>) IN
         IF ~ok THEN No
         ELSE IF o.shape # "no" /\ o.ndim # "no" /\ Len(o.sh) # o.nd THEN No
         ELSE IF o.shape # "no" THEN RuleARD(a, o.sh)
         ELSE IF o.ndim # "no" THEN (IF o.nd > Len(full) THEN No
                                     ELSE RuleARD(a, SubSeq(full, Len(full) - o.nd + 1, Len(full))))
         ELSE RuleARD(a, <<>>)
    [] t = "gaussian" -> IF Len(a[1].s) = 1 /\ a[1].s = a[2].s THEN Yes("gauss", a[1].s, 0, <<a[1].pl, a[2].pl>>) ELSE No
    [] t = "wishart" -> Yes("wish", a[2].s, 0, <<a[1].pl, a[2].pl>>)
    [] t = "dirichlet" -> Yes("dir", a[1].s, 0, <<a[1].pl>>)
    [] t = "beta" -> IF a[1].s = <<2>> THEN Yes("beta", <<>>, 0, <<a[1].pl>>) ELSE No
    [] t = "cat" -> Yes("cat", a[1].s, 0, <<a[1].pl>>)
    [] t = "bern" -> Yes("binom", <<>>, 1, <<a[1].pl>>)
    [] t = "binom" -> Yes("binom", <<>>, a[1].q, <<a[2].pl>>)
    [] t = "multi" -> Yes("multi", a[2].s, a[1].q, <<a[2].pl>>)
    [] t = "pois" -> Yes("pois", <<>>, 0, <<a[1].pl>>)
    [] t = "mix" ->
         LET r == Base(o.of, SubSeq(a, 2, Len(a)), [shape |-> "no", ndim |-> "no"]) IN
         IF ~r.ok \/ ~Compatible(r.pp) THEN No
         ELSE LET mp == Bcast(r.pp) IN
              IF mp = <<>> \/ <<Last(mp)>> # a[1].s THEN No
              ELSE Yes(r.k, r.s, r.q, <<a[1].pl, Front(mp)>>)
    [] t = "cmc" ->
         LET p == a[2].pl IN
         IF a[1].s # a[2].s \/ p = <<>> \/ <<Last(p)>> # a[2].s THEN No
         ELSE IF Len(p) < 2 /\ o.len = 0 THEN No
         ELSE IF Len(p) >= 2 /\ At(p, 1) # 1 /\ o.len # 0 /\ o.len # At(p, 1) + 1 THEN No
         ELSE Yes("cchain", a[1].s, IF o.len # 0 THEN o.len ELSE IF At(p, 1) = 1 THEN 2 ELSE At(p, 1) + 1,
                  <<a[1].pl, Drop(p, 2)>>)
    [] t = "gmc" ->
         LET D == a[1].s
             T == {At(a[3].pl, 1), At(a[4].pl, 1)} \ {1} IN
         IF Len(D) # 1 \/ a[2].s # D \/ a[3].s # D \/ a[3].pl = <<>> \/ a[4].pl = <<>>
            \/ <<Last(a[3].pl)>> # D \/ <<Last(a[4].pl)>> # D THEN No
         ELSE IF Cardinality(T) > 1 \/ (T = {} /\ o.len = 0) \/ (T # {} /\ o.len # 0 /\ T # {o.len - 1}) THEN No
         ELSE Yes("gchain", D, IF o.len # 0 THEN o.len ELSE (CHOOSE x \in T : TRUE) + 1,
                  <<a[1].pl, a[2].pl, Drop(a[3].pl, 2), Drop(a[4].pl, 2)>>)
    [] t = "gg" -> IF Len(a[1].s) = 1 /\ a[1].s = a[2].s
                   THEN Yes("gg", a[1].s, 0, <<a[1].pl, a[2].pl, a[3].pl, a[4].pl>>) ELSE No
    [] t = "add" -> IF \A i \in DOMAIN a : a[i].s = a[1].s THEN Yes("gauss", a[1].s, 0, Pls(a)) ELSE No
    [] t = "dot" -> IF Len(a[1].s) = 1 /\ \A i \in DOMAIN a : a[i].s = a[1].s THEN Yes("gauss", <<>>, 0, Pls(a)) ELSE No
    [] t = "gate" -> IF a[2].n # 0 /\ a[2].pl # <<>> /\ <<Last(a[2].pl)>> = a[1].s
                     THEN Yes(a[2].k, a[2].s, a[2].q, <<a[1].pl, Front(a[2].pl)>>) ELSE No
    [] t = "concat" ->
         IF (\E i \in DOMAIN a : a[i].s # a[1].s \/ a[i].q # a[1].q \/ a[i].pl = <<>>) \/ o.axis >= 0 THEN No
         ELSE LET n == SumSeq([i \in DOMAIN a |-> Last(a[i].pl)]) IN
              Yes(a[1].k, a[1].s, a[1].q, [i \in DOMAIN a |-> Append(Front(a[i].pl), n)])
    [] t = "cgauss" -> IF Len(a[1].s) = 1 /\ Len(a[2].s) = 1
                       THEN Yes("gauss", <<a[1].s[1] + a[2].s[1]>>, 0, <<a[1].pl, a[2].pl>>) ELSE No
    [] t = "take" ->
         IF a[1].pl = <<>> \/ o.axis >= 0 \/ \E j \in DOMAIN o.ind : o.ind[j] >= Last(a[1].pl) \/ o.ind[j] < -Last(a[1].pl)
         THEN No
         ELSE Yes(a[1].k, a[1].s, a[1].q, <<Append(Front(a[1].pl), Len(o.ind))>>)
    [] t = "slice" -> IF SliceOk(o, a[1].pl) THEN Yes(a[1].k, a[1].s, a[1].q, <<SlicePl(o, a[1].pl)>>) ELSE No

\* given: plates given explicitly (<<-1>>: none)
Auto == <<-1>>
Build(t, a, o, given) ==
  IF \E i \in DOMAIN a : a[i].bad \/ a[i].k # Kinds(t, o)[i] THEN No
  ELSE IF t # "concat" /\ ~Independent(a) THEN No
  ELSE LET r == Base(t, a, o) IN
       IF ~r.ok THEN No
       ELSE IF given = Auto
            THEN IF Compatible(r.pp) THEN [ok |-> TRUE, k |-> r.k, s |-> r.s, q |-> r.q, pl |-> Bcast(r.pp)] ELSE No
            ELSE IF \A i \in DOMAIN r.pp : Sub(r.pp[i], given)
                 THEN [ok |-> TRUE, k |-> r.k, s |-> r.s, q |-> r.q, pl |-> given] ELSE No

(***************************************************************************)
(* Which elements of an argument an element e of node x depends on         *)
(***************************************************************************)
ChainLen(x) == x.q
Inner(x, m) ==            \* axes of argument m inside the node's plates
  CASE x.t = "ard" -> x.s
    [] x.t = "mix" /\ m >= 2 -> x.a[1].s
    [] x.t = "cmc" /\ m = 2 -> <<ChainLen(x) - 1>> \o x.s
    [] x.t = "gmc" /\ m >= 3 -> <<ChainLen(x) - 1>> \o x.s
    [] x.t = "gate" /\ m = 2 -> x.a[1].s
    [] OTHER -> <<>>
Norm(i, n) == IF i < 0 THEN i + n ELSE i
Up(x, m, e) ==
  LET a == x.a[m] IN
  CASE x.t = "concat" ->
         LET off == SumSeq([i \in 1..(m-1) |-> Last(x.a[i].pl)])
             j == Last(e) - off IN
         IF j < 0 \/ j >= Last(a.pl) THEN {} ELSE {Append(Proj(Front(e), Front(a.pl)), j)}
    [] x.t = "take" -> {Append(Front(e), Norm(x.o.ind[Last(e) + 1], Last(a.pl)))}
    [] x.t = "slice" ->
         LET o == x.o IN
         {CASE o.ix = "new" -> IF o.end THEN Front(e) ELSE Tail(e)
            [] o.ix = "int" -> IF o.end THEN Append(e, Norm(o.i, Last(a.pl))) ELSE <<Norm(o.i, Head(a.pl))>> \o e
            [] o.ix = "range" -> IF o.end THEN Append(Front(e), o.i + o.step * Last(e))
                                 ELSE <<o.i + o.step * Head(e)>> \o Tail(e)}
    [] OTHER -> {Proj(e \o d, a.pl) : d \in Idx(Inner(x, m))}

\* elements that take part: observed, or with a descendant that does
RECURSIVE Live(_)
Live(i) ==
  N[i].obs \cup
  UNION {UNION {UNION {{SubSeq(u, 1, Len(N[i].pl)) : u \in Up(N[j], m, e)} : e \in Live(j)}
                : m \in {m \in DOMAIN N[j].a : N[j].a[m].n = i}}
         : j \in {j \in Alive : j > i}}

\* nearest stochastic descendants
RECURSIVE Kids(_)
Kids(i) == UNION {IF Stoch(j) THEN {j} ELSE Kids(j)
                  : j \in {j \in Alive : j > i /\ \E m \in DOMAIN N[j].a : N[j].a[m].n = i}}
RECURSIVE Desc(_)
Desc(i) == {i} \cup UNION {Desc(j) : j \in {j \in Alive : j > i /\ \E m \in DOMAIN N[j].a : N[j].a[m].n = i}}

(***************************************************************************)
(* Calls                                                                   *)
(***************************************************************************)
SetToSeq(S) == LET f[T \in SUBSET S] == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o f[T \ {x}] IN f[S]
Observable ==
  [i \in DOMAIN N |->
     IF ~N[i].alive THEN [alive |-> FALSE]
     ELSE [alive |-> TRUE, st |-> N[i].st, k |-> N[i].k, s |-> N[i].s, q |-> N[i].q, pl |-> N[i].pl, mask |-> Live(i), obs |-> N[i].obs,
           pdf |-> Kids(i) \cup (IF Stoch(i) THEN {i} ELSE {})]]
Done(op, ok) == log' = Append(log, [op |-> op, ok |-> ok, obs |-> Observable'])
Ready == ph = "go" /\ Len(log) < MaxCalls

Plates == {<<>>, <<>>, <<1>>, <<2>>, <<3>>, <<3>>, <<2,1>>, <<1,3>>, <<2,3>>, <<3,2>>, <<2,2>>}
Dims == {2, 3}
\* a constant for a slot of kind k
ConstFor(k, pl, d, bad) ==
  CASE k = "gauss" -> Const("gauss", d, 0, pl, FALSE)
    [] k \in {"gamma", "ga"} -> Const(k, <<>>, 0, pl, bad)
    [] k = "wish" -> Const(k, d, 0, pl, bad)
    [] k = "wn" -> Const(k, <<>>, 0, pl, FALSE)
    [] k \in {"conc", "dir"} -> Const(k, d, 0, pl, bad)
    [] k = "beta" -> Const(k, <<>>, 0, pl, bad)
    [] k = "trials" -> Const(k, <<>>, IF bad THEN -1 ELSE d[1] + 1, <<>>, bad)
    [] k = "cat" -> Const(k, d, 0, pl, bad)
\* f: a node that is to be read (0: any)
Slot(k, d, pl, wild, f) ==
  LET nodes == {i \in Alive : ArgOf(i).k = k}
      fits == {i \in nodes : ArgOf(i).s = d}
      dets == {i \in fits : ~Stoch(i)} IN
  One({IF f # 0 /\ ArgOf(f).k = k /\ ArgOf(f).s = d THEN ArgOf(f)
       ELSE IF c = 1 /\ wild /\ Alive # {} THEN One({ArgOf(i) : i \in {RE(Alive)}})
       ELSE IF c <= 3 \/ nodes = {} THEN One({ConstFor(k, pl, d, b) : b \in {wild /\ RE(1..3) = 1}})
       ELSE IF c <= 5 \/ fits = {} THEN One({ArgOf(i) : i \in {RE(nodes)}})
       ELSE IF c <= 8 /\ dets # {} THEN One({ArgOf(i) : i \in {RE(dets)}})
       ELSE One({ArgOf(i) : i \in {RE(fits)}}) : c \in {RE(1..10)}})

Vec(d) == IF d = 0 THEN <<>> ELSE <<d>>
AnyKind == {"gauss", "gamma", "dir", "cat", "beta", "wish"}
Options(t) ==
  CASE t = "ard" -> RE({[shape |-> "no", sh |-> <<>>, ndim |-> "no", nd |-> 0],
                        [shape |-> "no", sh |-> <<>>, ndim |-> "yes", nd |-> 1],
                        [shape |-> "yes", sh |-> <<2>>, ndim |-> "no", nd |-> 0],
                        [shape |-> "yes", sh |-> <<3>>, ndim |-> "no", nd |-> 0],
                        [shape |-> "yes", sh |-> <<2,3>>, ndim |-> "no", nd |-> 0],
                        [shape |-> "yes", sh |-> <<3>>, ndim |-> "yes", nd |-> 1],
                        [shape |-> "yes", sh |-> <<3>>, ndim |-> "yes", nd |-> 2],
                        [shape |-> "no", sh |-> <<>>, ndim |-> "yes", nd |-> 2]})
    [] t = "mix" -> [of |-> RE({"ard", "gaussian", "gamma", "pois", "cat"})]
    [] t \in {"cmc", "gmc"} -> [len |-> RE({0, 3, 4})]
    [] t = "gate" -> [k |-> RE(AnyKind)]
    [] t \in {"add", "dot"} -> [n |-> RE({2, 3, 4})]
    [] t = "concat" -> [n |-> RE({2, 3}), k |-> RE(AnyKind), axis |-> IF RE(1..5) = 1 THEN 0 ELSE -1]
    [] t = "take" -> [k |-> RE(AnyKind), axis |-> IF RE(1..5) = 1 THEN 0 ELSE -1,
                      ind |-> RE({<<0>>, <<1,0>>, <<1,1,0>>, <<-1,0,0>>, <<2,0>>, <<0,-3>>})]
    [] t = "slice" -> [k |-> RE(AnyKind), ix |-> RE({"new", "int", "range"}),
                       end |-> RE({TRUE, FALSE}), i |-> RE({0, 1, 2}), step |-> RE({1, 2})]
    [] OTHER -> [x |-> 0]

\* constructions whose outcome is left open: see Open
Open(t, a, o, r, given) ==
  \* a constant alone makes no graph
  \/ t \notin Stochastic /\ \A i \in DOMAIN a : a[i].n = 0
  \/ t \in {"take", "slice"} /\ a[1].n = 0
  \* a constant array takes the shape and kind that the other arguments want
  \/ \E i \in DOMAIN a : a[i].n = 0 /\ a[i].k # Kinds(t, o)[i]
  \/ t \in {"mix", "gate"} /\ a[1].n = 0 /\ ~r.ok
  \/ t \in {"add", "concat", "dot", "cgauss"} /\ \E i \in DOMAIN a : a[i].n = 0 /\
       \E j \in DOMAIN a : Len(a[j].s) # Len(a[i].s) \/ a[j].k # "gauss"
  \* a vector of length one is repeated
  \/ t = "dot" /\ \E i, j \in DOMAIN a : a[i].s = <<1>> /\ a[j].s # <<1>>
  \* operations on plates alone take chains as they are
  \/ t \in {"gate", "concat", "take", "slice"} /\ \E i \in DOMAIN a : a[i].n # 0 /\ N[a[i].n].k \in {"gchain", "cchain"}
  \/ t \in {"take", "slice", "gate"} /\ Last(a).k # o.k
  \/ t = "concat" /\ (a[1].k # o.k \/ \E i \in DOMAIN a : a[i].n = 0 /\ (~r.ok \/ \E j \in DOMAIN a : a[1].k # a[j].k))
  \* dynamics and noise shared by all dimensions of a chain
  \/ t = "gmc" /\ \E i \in {3, 4} : a[i].pl = <<>> \/ Last(a[i].pl) = 1
  \* arguments of the right kind after a conversion
  \/ \E i \in DOMAIN a : a[i].k # Kinds(t, o)[i] /\ {a[i].k, Kinds(t, o)[i]} \in
        {{"beta", "dir"}, {"cat", "multi"}, {"binom", "cat"}, {"binom", "beta"}, {"gamma", "wish"}, {"gg", "gauss"}, {"gg", "gamma"}, {"gauss", "gg"},
         {"gamma", "ga"}, {"binom", "multi"}, {"pois", "gamma"}, {"gg", "wish"}}
  \/ Len(log) = 0 /\ ~r.ok
  \/ given # Auto /\ t \notin Stochastic

Small(pl) == Len(pl) <= 3 /\ (\A i \in DOMAIN pl : pl[i] <= 6) /\ Cardinality(Idx(pl)) <= 12

Make(t, as, o, given, name, wild) ==
  LET a == View(t, o, as)
      r == Build(t, a, o, given)
      op == [k |-> "make", t |-> t, a |-> a, o |-> o, given |-> given, name |-> name] IN
  /\ ~Open(t, a, o, r, given)
  /\ r.ok => Len(N) < MaxNodes /\ Small(r.pl) /\ Len(r.s) <= 2
  /\ ~r.ok => wild
  /\ IF r.ok
     THEN N' = Append(N, [t |-> t, k |-> r.k, s |-> r.s, q |-> r.q, pl |-> r.pl, a |-> a, o |-> o, given |-> given,
                          name |-> name, alive |-> TRUE, st |-> t \in Stochastic, obs |-> {}, how |-> [x |-> 0]])
     ELSE UNCHANGED N
  /\ Done(op, r.ok)

Names == {"", "", "", "x", "y", "z"}
Readers(t, d) ==        \* types that can read a kind
  CASE t = "gauss" -> (IF d = <<>> THEN <<"ard", "ard", "ard", "add", "concat", "take", "slice", "mix">>
                       ELSE <<"gaussian", "gaussian", "gaussian", "ard", "add", "dot", "dot", "cgauss", "gmc", "gg", "concat", "take", "slice", "mix">>)
    [] t = "gamma" -> <<"ard", "ard", "pois", "gamma", "gg", "gate", "concat", "take", "slice", "mix">>
    [] t = "dir" -> <<"cat", "cat", "multi", "cmc", "gate", "concat", "take", "slice", "mix">>
    [] t = "cat" -> <<"mix", "mix", "gate", "concat", "take", "slice">>
    [] t = "beta" -> <<"bern", "binom", "gate", "concat", "take", "slice">>
    [] t = "wish" -> <<"gaussian", "gaussian", "wishart", "gmc", "gate", "concat", "take", "slice">>
    [] OTHER -> TypeList
\* nodes that are to be read next: often one that does not have two readers yet
Create(wild, mode) ==
  /\ Ready /\ UNCHANGED ph
  /\ \E f \in {CASE mode = "derive" -> LET S == {i \in Alive : ArgOf(i).k \in AnyKind} IN IF S = {} THEN 0 ELSE RE(S)
                [] mode = "read" -> LET S == {i \in Alive : ~Stoch(i) /\ ArgOf(i).k \in AnyKind}
                                        S1 == {i \in S : Cardinality(Kids(i)) = 1}
                                    IN  IF S = {} THEN 0 ELSE IF S1 # {} THEN RE(S1) ELSE RE(S)
                [] OTHER -> 0} :
     \E r \in {IF f = 0 THEN TypeList ELSE Readers(ArgOf(f).k, ArgOf(f).s)} :
     (mode # "plain" => f # 0) /\
     \E t \in {r[RE(DOMAIN r)]} : \E o \in {LET x == Options(t) IN IF f # 0 /\ "k" \in DOMAIN x THEN [x EXCEPT !.k = ArgOf(f).k] ELSE x} :
     \E d \in {IF f # 0 /\ Len(ArgOf(f).s) = 1 THEN ArgOf(f).s[1] ELSE RE(Dims)} : \E p \in {RE(Plates)} :
     \E given \in {RE({1, 2, 3})} : \E e \in {IF f # 0 /\ ArgOf(f).k = "gauss" THEN ArgOf(f).s ELSE RE({<<>>, <<d>>})} : \E name \in {RE(Names)} :
       LET ks == Kinds(t, o)
           dd(i) == CASE ks[i] = "gauss" -> (CASE t \in {"ard"} -> RE({<<>>, <<>>, <<d>>})
                                               [] t \in {"add", "concat", "gate", "take", "slice"} -> IF wild THEN RE({<<>>, <<d>>}) ELSE e
                                               [] t = "mix" /\ o.of = "ard" -> <<>>
                                               [] OTHER -> <<d>>)
                      [] ks[i] \in {"wish", "dir", "conc", "cat", "trials"} -> (IF t = "beta" /\ ~wild THEN <<2>> ELSE <<d>>)
                      [] OTHER -> <<>>
           pp(i) == CASE t = "mix" /\ i >= 2 -> RE({<<d>>, <<3, d>>, <<1, d>>, <<2, d>>, p})
                      [] t = "gate" /\ i = 2 -> RE({<<d>>, <<3, d>>, <<d>>, p})
                      [] t = "cmc" /\ i = 2 -> RE({<<d>>, <<2, d>>, <<1, d>>, <<2, 3, d>>, p})
                      [] t = "gmc" /\ i >= 3 -> RE({<<d>>, <<d>>, <<2, d>>, <<1, d>>, <<2, 1, d>>, p})
                      [] OTHER -> IF RE(1..2) = 1 THEN p ELSE RE(Plates)
           cand == {i \in DOMAIN ks : f # 0 /\ ks[i] = ArgOf(f).k}
       IN  \E at \in {IF cand = {} THEN 0 ELSE RE(cand)} :
           \* the same node read twice by one operation
           \E dup \in {IF wild /\ t \in {"add", "dot"} /\ RE(1..2) = 1 THEN 1 ELSE 0} :
           \E a1 \in {Slot(ks[1], dd(1), pp(1), wild, IF at = 1 THEN f ELSE 0)} :
           \E a2 \in {IF Len(ks) < 2 THEN a1 ELSE Slot(ks[2], dd(2), pp(2), wild, IF at = 2 THEN f ELSE 0)} :
           \E a3 \in {IF Len(ks) < 3 THEN a1 ELSE Slot(ks[3], dd(3), pp(3), wild, IF at = 3 THEN f ELSE IF dup = 1 /\ RE(1..2) = 1 THEN a1.n ELSE 0)} :
           \E a4 \in {IF Len(ks) < 4 THEN a1 ELSE Slot(ks[4], dd(4), pp(4), wild, IF at = 4 THEN f ELSE IF dup = 1 /\ RE(1..2) = 1 THEN a1.n ELSE 0)} :
             Make(t, SubSeq(<<a1, a2, a3, a4>>, 1, Len(ks)), o,
                  IF given = 1 /\ t \in Stochastic THEN p ELSE Auto, name, wild)

CanObserve(i) == Stoch(i) /\ N[i].t \notin {"cmc", "gmc", "gg"}
\* the mask: a shape and a pattern (0: all, 1: none, 2, 3: some)
On(pat, e) == CASE pat = 0 -> TRUE [] pat = 1 -> FALSE [] pat = 2 -> SumSeq(e) % 2 = 0 [] pat = 3 -> SumSeq(e) % 3 # 0
MaskShapes(pl) == {pl, pl, <<>>} \cup {[j \in 1..Len(pl) |-> IF j = m THEN 1 ELSE pl[j]] : m \in 1..Len(pl)}
                  \cup (IF pl = <<>> THEN {} ELSE {Tail(pl)})
Observe ==
  /\ Ready /\ UNCHANGED ph
  /\ \E i \in {i \in Alive : CanObserve(i)} : \E ms \in MaskShapes(N[i].pl) : \E pat \in 0..3 :
       /\ N' = [N EXCEPT ![i].obs = {e \in Idx(N[i].pl) : On(pat, Proj(e, ms))},
                         ![i].how = [ms |-> ms, pat |-> pat]]
       /\ Done([k |-> "observe", i |-> i, sh |-> N[i].pl \o (IF N[i].k = "wish" THEN N[i].s \o N[i].s
                                                             ELSE IF N[i].k = "cat" THEN <<>> ELSE N[i].s),
                ms |-> ms, pat |-> pat, bad |-> 0], TRUE)
BadObserve ==
  /\ Ready /\ UNCHANGED <<N, ph>>
  /\ \E i \in {i \in Alive : CanObserve(i)} : \E why \in {RE({"shape", "value", "mask"})} :
       LET sh == N[i].pl \o (IF N[i].k = "wish" THEN N[i].s \o N[i].s ELSE IF N[i].k = "cat" THEN <<>> ELSE N[i].s)
           worse == {<<2>> \o sh} \cup (IF sh = <<>> THEN {} ELSE {Tail(sh)})
                    \cup {[sh EXCEPT ![j] = @ + 1] : j \in DOMAIN N[i].pl}
           wm == {<<2>> \o N[i].pl} \cup {[N[i].pl EXCEPT ![j] = @ + 1] : j \in {j \in DOMAIN N[i].pl : N[i].pl[j] > 1}}
       IN  CASE why = "shape" -> \E w \in {w \in worse : N[i].k \notin {"wish"} \/ Len(w) > Len(N[i].pl)} :
                  Done([k |-> "observe", i |-> i, sh |-> w, ms |-> <<>>, pat |-> 0, bad |-> 0], FALSE)
             [] why = "value" ->
                  /\ N[i].k \notin {"gauss"}
                  /\ \E b \in 1..3 : Done([k |-> "observe", i |-> i, sh |-> sh, ms |-> <<>>, pat |-> 0, bad |-> b], FALSE)
             [] why = "mask" -> \E w \in wm :
                  Done([k |-> "observe", i |-> i, sh |-> sh, ms |-> w, pat |-> 0, bad |-> 0], FALSE)

Unobserve ==
  /\ Ready /\ UNCHANGED ph
  /\ \E i \in {i \in Alive : CanObserve(i) /\ N[i].obs # {}} :
       /\ N' = [N EXCEPT ![i].obs = {}, ![i].how = [x |-> 0]]
       /\ Done([k |-> "unobserve", i |-> i], TRUE)

\* readers of a deterministic node that others read, too
Twins == {j \in Alive : \E m \in Alive : ~Stoch(m) /\ \E k \in Alive :
            k # j /\ N[k].obs # {} /\ \A x \in {j, k} : \E y \in DOMAIN N[x].a : N[x].a[y].n = m}
DeleteOne(i) ==
  /\ Ready /\ UNCHANGED ph
  /\ N' = [j \in DOMAIN N |-> IF j \in Desc(i) THEN [N[j] EXCEPT !.alive = FALSE] ELSE N[j]]
  /\ Done([k |-> "delete", i |-> i], TRUE)
Delete == Alive # {} /\ \E i \in {RE(Alive)} : DeleteOne(i)
DeleteTwin == \E i \in Twins : DeleteOne(i)

\* an engine over some of the nodes, each listed twice
RECURSIVE Distinct(_)
Distinct(q) == \A i, j \in DOMAIN q : i # j /\ q[i] # "" => q[i] # q[j]
Engine ==
  /\ Ready /\ UNCHANGED <<N, ph>>
  /\ \E ns \in SUBSET {i \in Alive : N[i].t # "slice"} :
       /\ ns # {} /\ Cardinality(ns) <= 3
       /\ LET q == SetToSeq(ns)
              nm == [j \in DOMAIN q |-> N[q[j]].name] IN
          Done([k |-> "engine", ns |-> q, names |-> nm], Distinct(nm))
\* initial values of a wrong shape
BadInit ==
  /\ Ready /\ UNCHANGED <<N, ph>>
  /\ \E i \in {i \in Alive : CanObserve(i) /\ N[i].k \in {"gauss", "gamma", "dir", "beta", "cat"}} :
       LET sh == N[i].pl \o (IF N[i].k = "cat" THEN <<>> ELSE N[i].s)
           worse == {<<2>> \o sh} \cup {[sh EXCEPT ![j] = @ + 1] : j \in {j \in DOMAIN sh : sh[j] > 1 /\ N[i].k # "dir"}}
       IN  \E w \in worse : Done([k |-> "init", i |-> i, sh |-> w], FALSE)
Update ==
  /\ Ready /\ UNCHANGED <<N, ph>>
  /\ \E i \in {i \in Alive : Stoch(i)} : Done([k |-> "update", i |-> i], TRUE)

Init == N = <<>> /\ log = <<>> /\ ph = "go"
Create1 == Create(FALSE, "plain")
Create2 == Create(TRUE, "plain")
Derive == Create(FALSE, "derive")
Read == Create(FALSE, "read")
Finish ==
  /\ ph = "go" /\ Len(log) = MaxCalls
  /\ PrintT(<<"BEHAVIOUR", ToJson([log |-> log, final |-> N])>>)
  /\ ph' = "end" /\ UNCHANGED <<N, log>>
Next == \/ Create1 \/ Create1 \/ Create1 \/ Create1 \/ Derive \/ Derive \/ Derive \/ Read \/ Read \/ Create2 \/ Create2 \/ Create2
        \/ Observe \/ Observe \/ BadObserve \/ Unobserve \/ Delete \/ DeleteTwin \/ Engine \/ BadInit \/ Update \/ Finish
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Invariants of the specification                                         *)
(***************************************************************************)
Consistent ==
  \A i \in Alive :
    /\ Live(i) \subseteq Idx(N[i].pl)
    /\ \A m \in DOMAIN N[i].a : N[i].a[m].n # 0 => N[i].a[m].n \in Alive /\ N[i].a[m].n < i
    /\ i \notin Kids(i)
=============================================================================
