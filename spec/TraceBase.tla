----------------------------- MODULE TraceBase ------------------------------
(* Common part of the trace specifications: every case of the trace file is  *)
(* one behaviour; event by event the specification's state advances and the  *)
(* names of the violated clauses are reported (total verdicts).              *)
EXTENDS Base, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, st, bad
vars == <<i, l, st, bad>>
Case == Cases[i]
Ev == Cases[i].ev
If(b, name) == IF b THEN {} ELSE {name}
Report(b, more) ==
  IF b = {} THEN TRUE
  ELSE PrintT("REJECT|" \o ToString(Case.id) \o "|" \o ToString(l) \o "|" \o ToString(b) \o "|" \o ToString(more))
Say(b, more) == bad' = b /\ Report(b, more)
TInit(start(_)) == i \in DOMAIN Cases /\ l = 1 /\ bad = {} /\ st = start(Cases[i])
TStep == l <= Len(Ev) /\ l' = l + 1 /\ i' = i
\* the whole of every trace was consumed
Consumed == TLCGet("stats").distinct = SumSeq([k \in DOMAIN Cases |-> Len(Cases[k].ev) + 1])
=============================================================================
