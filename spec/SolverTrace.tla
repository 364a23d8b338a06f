---------------------------- MODULE SolverTrace -----------------------------
(* Recorded runs of the vectorised minimiser.  Per element: e.q are the      *)
(* queries <<position, rank of the value>>, positions scaled so that the     *)
(* bounds are 0 and 10^9; e.ret the answer in the same form; e.err the       *)
(* distance of the answer to the true minimum in thousandths of the          *)
(* tolerance; e.alone the distance to the answer for the element on its own. *)
EXTENDS Solver, TraceBase
Slack == 2
Element(e) ==
  UNCHANGED st /\
  Say(If(InBounds(e.q, -Slack, 1000000000 + Slack), "sol.bounds")
      \cup If(e.ret[1] >= -Slack /\ e.ret[1] <= 1000000000 + Slack, "sol.bounds")
      \cup If(Best(e.q, e.ret), "sol.best")
      \cup If(~e.full \/ e.err <= 2100, "sol.precise")
      \cup If(~e.full \/ e.alone <= 4200, "sol.independent")
      \cup If(e.shape, "sol.shape"), <<e.ret, e.err, e.alone, e.n>>)
Crash(e) == UNCHANGED st /\ Say({"crash"}, e.why)
Init == TInit(LAMBDA c : 0)
Next == TStep /\ LET e == Ev[l] IN CASE e.op = "element" -> Element(e) [] e.op = "crash" -> Crash(e)
Spec == Init /\ [][Next]_vars
=============================================================================
