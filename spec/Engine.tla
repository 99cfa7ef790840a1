-------------------------------- MODULE Engine --------------------------------
(***************************************************************************)
(* The inference engine's own state: what one VB object remembers about    *)
(* the iterations it has run, when it stops, what its callbacks and its    *)
(* files contain.  The model consists of two nodes, "a" and "b", whose     *)
(* updates only count (their state is the number of updates the engine had *)
(* done when they were last updated) and whose lower bound contributions   *)
(* are chosen by the environment, so every progress of the bound is        *)
(* possible: growing, equal, falling, infinite, undefined.                 *)
(*                                                                         *)
(* TLC generates behaviours; the harness plays them on the real engine and *)
(* compares after every call everything the call's record `exp' contains.  *)
(* The behaviours are printed when MaxCalls calls have been made.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxCalls,      \* calls per behaviour
          MaxIter,       \* iterations in one call
          Rich           \* FALSE: a small alphabet for exhaustive enumeration

NaN == 1000001           \* undefined
NInf == -1000001         \* minus infinity
Free == 1000002           \* not specified
Num(x) == x \notin {NaN, NInf, Free}

Plus(x, y) == IF x = NaN \/ y = NaN THEN NaN
              ELSE IF x = NInf \/ y = NInf THEN NInf ELSE x + y

\* contributions of the two nodes in one iteration
Pairs == IF Rich
         THEN {<<0,0>>, <<1,2>>, <<3,0>>, <<100,0>>, <<100,1>>, <<-50,1>>, <<-50,2>>, <<NaN,1>>, <<2,NInf>>, <<-7,7>>}
         ELSE {<<1,2>>, <<100,0>>, <<100,1>>, <<-50,2>>}
\* tolerances, in thousandths; Free: not given (the engine's own is used)
Tols == IF Rich THEN {Free, 0, 50, -3000} ELSE {Free, 50}
Reps == IF Rich THEN {0, 1, 2, 3, Free} ELSE {1, 2, Free}    \* Free: until convergence
NodeLists == IF Rich THEN {<<>>, <<"a">>, <<"b">>, <<"b","a">>, <<"#a">>, <<"a","#a">>} ELSE {<<>>, <<"#b">>}
Files == IF Rich THEN {1, 2} ELSE {1}
Who(x) == IF x \in {"a", "#a"} THEN "a" ELSE "b"        \* "#a": by name

Abs(x) == IF x < 0 THEN -x ELSE x

\* relative change of the bound below tol (in thousandths)
Small(L0, L1, tol) ==
  /\ Num(L0) /\ Num(L1)
  /\ Abs(L0) + Abs(L1) > 0
  /\ 2000 * (L1 - L0) < tol * (Abs(L0) + Abs(L1))

VARIABLES
  s,        \* the engine
  c,        \* the update being executed
  ph,       \* "idle", "update" or "end"
  log       \* calls made so far, with their expected observations
vars == <<s, c, ph, log>>

Init ==
  /\ \E t \in (IF Rich THEN {10, 0, -3000} ELSE {10}) :
       s = [it |-> 0, tot |-> 0, times |-> <<>>, L |-> <<>>, la |-> <<>>, lb |-> <<>>, conv |-> FALSE, ach |-> FALSE, temp |-> 1000, ign |-> FALSE,
            cb |-> 0, out |-> <<>>, tol |-> t, every |-> 0, file |-> 0, anodes |-> <<>>,
            ud |-> 0, files |-> [f \in Files |-> <<>>], a |-> 0, b |-> 0, ups |-> 0, order |-> <<>>]
  /\ c = <<>> /\ ph = "idle"
  /\ log = <<>>

\* observations after a call
Obs(st) == [it |-> st.it, L |-> st.L, la |-> st.la, lb |-> st.lb, conv |-> st.conv, out |-> st.out,
            times |-> st.times, a |-> st.a, b |-> st.b, order |-> st.order, cb |-> st.cb, temp |-> st.temp]

Done(op, st, extra) ==
  /\ s' = st
  /\ c' = <<>> /\ ph' = "idle"
  /\ log' = Append(log, [op |-> op, exp |-> Obs(st), x |-> extra])

NoX == [res |-> 0, warned |-> 0, printed |-> <<>>, err |-> FALSE, ticks |-> 0, plots |-> <<>>]
Idle == ph = "idle" /\ Len(log) < MaxCalls

(***************************************************************************)
(* update: a loop of iterations                                            *)
(***************************************************************************)
StartUpdate ==
  /\ Idle
  \* w: watched by a progress bar (1), by plotting all nodes (2), "b" and "a" (3), or "b" (4);
  \* only "a" has a plotter
  /\ \E ns \in NodeLists, r \in Reps, t \in Tols, w \in (IF Rich THEN 0..4 ELSE {0}) :
       /\ r = Free => ~s.ign
       /\ w > 0 => t = Free /\ ns \in {<<>>, <<"b", "a">>}
       /\ LET op == [k |-> "update", ns |-> ns, rep |-> r, tol |-> t, w |-> w] IN
          IF r = 0 THEN Done(op @@ [script |-> <<>>], s, NoX)
          ELSE /\ c' = [op |-> op, script |-> <<>>, warned |-> 0, printed |-> <<>>, plots |-> <<>>]
               /\ ph' = "update"
               /\ UNCHANGED <<s, log>>

RECURSIVE UpdateNodes(_, _)
UpdateNodes(st, ns) ==
  IF ns = <<>> THEN st
  ELSE LET w == Who(Head(ns))
           n == st.ups + 1
           st2 == [st EXCEPT !.ups = n, !.order = Append(@, w)]
       IN  UpdateNodes(IF w = "a" THEN [st2 EXCEPT !.a = n] ELSE [st2 EXCEPT !.b = n], Tail(ns))

Snapshot(st, ns) ==
  [it |-> st.it, L |-> st.L, conv |-> st.conv, out |-> st.out, ns |-> ns, ud |-> st.ud,
   la |-> st.la, lb |-> st.lb, a |-> st.a, b |-> st.b, times |-> st.times]
AllNodes(ns) == IF ns = <<>> THEN <<"a", "b">> ELSE [i \in DOMAIN ns |-> Who(ns[i])]

\* what the engine does after the nodes have been updated
EndIteration(st, x, y, tol0) ==
  LET k == st.it
      Lk == Plus(x, y)
      out == CASE st.cb = 0 -> st.out
               [] st.cb = 2 -> st.out
               [] OTHER -> Append(st.out, 10000 * st.cb + st.ups)
      tol == IF tol0 = Free THEN st.tol ELSE tol0
      checks == ~st.ign /\ ~st.ach /\ k > 0
      L0 == IF k > 0 THEN st.L[k] ELSE 0
      st1 == [st EXCEPT !.it = k + 1, !.L = Append(SubSeq(@, 1, k), Lk), !.la = Append(SubSeq(@, 1, k), x),
                        !.lb = Append(SubSeq(@, 1, k), y), !.out = out,
                        \* the time an iteration took: a number the environment chooses, named here
                        !.tot = @ + 1, !.times = Append(SubSeq(@, 1, k), st.tot + 1),
                        !.conv = checks /\ Small(L0, Lk, tol), !.ach = FALSE]
  IN  IF st.every > 0 /\ (k + 1) % st.every = 0
      THEN [st1 EXCEPT !.files[st.file] = Snapshot(st1, AllNodes(st.anodes))]
      ELSE st1
Decreased(st, x, y) ==
  LET Lk == Plus(x, y)
      L0 == IF st.it > 0 THEN st.L[st.it] ELSE 0
  IN  /\ ~st.ign /\ ~st.ach /\ st.it > 0
      /\ L0 # NaN /\ Lk # NaN /\ L0 # NInf /\ (Lk = NInf \/ L0 > Lk)

Iterate ==
  /\ ph = "update"
  /\ \E p \in Pairs :
       LET s1 == UpdateNodes(s, IF c.op.ns = <<>> THEN <<"a", "b">> ELSE c.op.ns)
           s2 == EndIteration(s1, p[1], p[2], c.op.tol)
           w == IF Decreased(s1, p[1], p[2]) THEN 1 ELSE 0
           script == Append(c.script, p)
           n == Len(script)
           stop == s2.conv \/ (c.op.rep # Free /\ n = c.op.rep)
           pr == Append(c.printed, s2.it)
           \* a plot shows the node as it was just updated
           pl == IF c.op.w \in {2, 3} THEN Append(c.plots, s1.a) ELSE c.plots IN
       \* an unlimited loop ends within MaxIter iterations
       /\ (c.op.rep = Free /\ n >= MaxIter) => stop
       /\ (c.op.rep = Free /\ n = MaxIter - 1 /\ ~stop) =>
             \* an end must be possible
             \E q \in Pairs : EndIteration(UpdateNodes(s2, IF c.op.ns = <<>> THEN <<"a", "b">> ELSE c.op.ns),
                                           q[1], q[2], c.op.tol).conv
       /\ IF stop
          THEN Done(c.op @@ [script |-> script], s2, [NoX EXCEPT !.warned = c.warned + w, !.printed = pr, !.plots = pl,
                                                     !.ticks = IF c.op.w = 1 THEN n ELSE 0])
          ELSE /\ s' = s2
               /\ c' = [c EXCEPT !.script = script, !.warned = @ + w, !.printed = pr, !.plots = pl]
               /\ UNCHANGED <<log, ph>>

(***************************************************************************)
(* Settings                                                                *)
(***************************************************************************)
\* temperature (in thousandths): a changed temperature changes the bound, so
\* what the next iteration does to the bound says nothing
Annealing ==
  /\ Idle
  /\ \E v \in (IF Rich THEN {250, 500, 1000} ELSE {500, 1000}) :
       /\ v # s.temp
       /\ Done([k |-> "annealing", v |-> v], [s EXCEPT !.temp = v, !.ach = TRUE, !.conv = FALSE], NoX)
Ignore == Idle /\ \E v \in BOOLEAN : v # s.ign /\ Done([k |-> "ignore", v |-> v], [s EXCEPT !.ign = v], NoX)
\* callbacks: 0 none, 1 returns a number, 2 returns nothing, 3 returns a vector
Callback ==
  /\ Idle
  /\ \E v \in (IF Rich THEN 0..3 ELSE {1}) :
       /\ v # s.cb
       /\ v \in {1, 3} => s.out = <<>>
       /\ Done([k |-> "callback", v |-> v], [s EXCEPT !.cb = v], NoX)
Autosave ==
  /\ Idle
  /\ \E f \in Files, n \in (IF Rich THEN {1, 2, 3, Free} ELSE {2}), ns \in (IF Rich THEN {<<>>, <<"b">>, <<"a", "b">>, <<"b", "#a">>} ELSE {<<>>}) :
       Done([k |-> "autosave", f |-> f, every |-> n, ns |-> ns],
            [s EXCEPT !.file = f, !.anodes = ns, !.every = IF n = Free THEN @ ELSE n], NoX)

(***************************************************************************)
(* Files                                                                   *)
(***************************************************************************)
Save ==
  /\ Idle
  /\ \E f \in Files \cup {0}, ns \in (IF Rich THEN {<<>>, <<"a">>, <<"#b">>} ELSE {<<>>}) :
       /\ f = 0 => s.file # 0
       /\ LET g == IF f = 0 THEN s.file ELSE f IN
          Done([k |-> "save", f |-> f, ns |-> ns],
               [s EXCEPT !.files[g] = Snapshot(s, AllNodes(ns))], NoX)

Has(ns, w) == \E i \in DOMAIN ns : Who(ns[i]) = w
\* bounds of a node that was not in the file are not specified
Unknown(n) == [i \in 1..n |-> Free]
Load ==
  /\ Idle
  /\ \E f \in Files, ns \in (IF Rich THEN {<<>>, <<"a">>, <<"b">>} ELSE {<<>>}), only \in BOOLEAN :
       LET z == s.files[f]
           want == AllNodes(ns)
           op == [k |-> "load", f |-> f, ns |-> ns, only |-> only]
       IN
       /\ z # <<>>
       \* the first wanted node is missing: refused; (a later one: unspecified)
       /\ IF ~Has(z.ns, want[1]) THEN Done(op, s, [NoX EXCEPT !.err = TRUE])
          ELSE
          /\ \A i \in DOMAIN want : Has(z.ns, want[i])
          \* outputs of different callbacks are not mixed
          /\ ~only => IF z.out = <<>> THEN s.out = <<>>
                       ELSE s.cb \in {0, 2} \/ z.out[1] \div 10000 = s.cb
          /\ LET s1 == [s EXCEPT !.a = IF Has(want, "a") THEN z.a ELSE @,
                                 !.b = IF Has(want, "b") THEN z.b ELSE @]
             IN  Done(op,
                   IF only THEN s1
                   ELSE [s1 EXCEPT !.it = z.it, !.L = z.L, !.times = z.times, !.conv = z.conv, !.out = z.out,
                           !.la = IF Has(want, "a") THEN z.la ELSE Unknown(z.it),
                           !.lb = IF Has(want, "b") THEN z.lb ELSE Unknown(z.it)], NoX)

\* a new engine over freshly built nodes, the files remain; everything that
\* can be set later can be given when the engine is built
Fresh ==
  /\ Idle
  /\ \E cb \in (IF Rich THEN 0..3 ELSE {0}), f \in (IF Rich THEN Files \cup {0} ELSE {0}),
        n \in (IF Rich THEN {0, 2} ELSE {0}), ud \in (IF Rich THEN {0, 7} ELSE {0}) :
       /\ n > 0 => f > 0
       /\ Done([k |-> "fresh", tol |-> s.tol, cb |-> cb, f |-> f, every |-> n, ud |-> ud],
          [s EXCEPT !.it = 0, !.times = <<>>, !.L = <<>>, !.la = <<>>, !.lb = <<>>, !.conv = FALSE, !.ach = FALSE, !.temp = 1000, !.ign = FALSE,
                    !.cb = cb, !.out = <<>>, !.every = n, !.file = f, !.anodes = <<>>, !.a = 0, !.b = 0,
                    !.ud = ud, !.ups = 0, !.order = <<>>], NoX)

\* user data of a file (0: there is none, and asking for it is refused)
UserData ==
  /\ Idle /\ Rich
  /\ \E f \in Files :
       /\ s.files[f] # <<>>
       /\ Done([k |-> "userdata", f |-> f], s, [NoX EXCEPT !.res = s.files[f].ud, !.err = (s.files[f].ud = 0)])

(***************************************************************************)
(* Queries                                                                 *)
(***************************************************************************)
Bound ==
  /\ Idle
  /\ \E p \in Pairs : Done([k |-> "bound", p |-> p], s, [NoX EXCEPT !.res = Plus(p[1], p[2])])
\* the curves that show the history: one per node, or their differences
History ==
  /\ Idle /\ Rich
  /\ \E d \in BOOLEAN : (d => s.it > 0) /\ Done([k |-> "history", diff |-> d], s, NoX)
\* plots of the present state
Plot ==
  /\ Idle /\ Rich
  /\ \E ns \in {<<>>, <<"a">>, <<"b">>, <<"#a">>} :
       Done([k |-> "plot", ns |-> ns], s,
            [NoX EXCEPT !.plots = IF \E i \in DOMAIN AllNodes(ns) : AllNodes(ns)[i] = "a" THEN <<s.a>> ELSE <<>>])
Reject == Idle /\ \E w \in {"name", "foreign"} : Done([k |-> "reject", w |-> w], s, [NoX EXCEPT !.err = TRUE])

Finish ==
  /\ ph = "idle" /\ Len(log) = MaxCalls
  /\ PrintT(<<"BEHAVIOUR", ToJson([tol |-> s.tol, files |-> s.files, log |-> log])>>)
  /\ ph' = "end"
  /\ UNCHANGED <<s, c, log>>

\* (updates are listed twice: simulation chooses among the actions first)
Next == \/ StartUpdate \/ StartUpdate \/ StartUpdate \/ Iterate \/ Annealing \/ Ignore \/ Callback \/ Autosave \/ Save \/ Load \/ Fresh \/ UserData \/ Bound \/ History \/ Plot \/ Reject \/ Finish
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Invariants of the engine, checked by TLC on the specification           *)
(***************************************************************************)
Consistent ==
  /\ Len(s.L) = s.it /\ Len(s.times) = s.it /\ Len(s.la) = s.it /\ Len(s.lb) = s.it
  /\ s.conv => s.it > 1
  /\ \A f \in Files : s.files[f] # <<>> => Len(s.files[f].L) = s.files[f].it
=============================================================================
