------------------------------- MODULE UtilTrace -------------------------------
(***************************************************************************)
(* Recorded calls of the array utilities against module Util.  One trace   *)
(* is a sequence of calls, one call a step.                                *)
(***************************************************************************)
EXTENDS Util, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
Tr == Traces[tr]
Arr(x) == TLCEval([sh |-> x.sh, v |-> FVec(x.v)])
RTol == FParse(Tr.rtol)
ATol == FParse(Tr.atol)

Bad(c, clause) == PrintT(<<"BAD", Tr.id, ToString(l), "call", clause, c.f>>)
CheckCall(c) ==
  LET a == TLCEval([i \in DOMAIN c.a |-> Arr(c.a[i])]) IN
  IF c.err # "" THEN (IF c.reject THEN TRUE ELSE Bad(c, "raised " \o c.err))
  ELSE IF c.reject THEN Bad(c, "accepted")
  ELSE LET r == TLCEval([i \in DOMAIN c.r |-> Arr(c.r[i])]) IN
       IF c.f \in Relational
       THEN IF Related(c.f, a, c.p, r, RTol, ATol) THEN TRUE ELSE Bad(c, "relation")
       ELSE LET x == TLCEval(Expected(c.f, a, c.p)) IN
            IF Len(x) # Len(r) \/ \E i \in DOMAIN x : x[i].sh # r[i].sh THEN Bad(c, "shape")
            ELSE IF \A i \in DOMAIN x : Len(r[i].v) = Len(x[i].v) /\
                      (Len(x[i].v) = 0 \/ VClose(x[i].v, r[i].v, RTol, ATol)) THEN TRUE
            ELSE Bad(c, "value")

Init == tr \in DOMAIN Traces /\ l = 1
Step == l <= Len(Tr.steps) /\ CheckCall(Tr.steps[l]) /\ l' = l + 1 /\ UNCHANGED tr
Finish == l = Len(Tr.steps) + 1 /\ l' = l + 1 /\ UNCHANGED tr /\ PrintT(<<"DONE", Tr.id, Len(Tr.steps)>>)
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<tr, l>>
================================================================================
