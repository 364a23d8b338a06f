----------------------------- MODULE ErrorsTrace ----------------------------
(* Recorded sessions with rejected requests, next to a shadow without them.  *)
EXTENDS Errors, TraceBase
Differ(a, b) == UNION {If(a[k] = b[k], a[k][1]) : k \in DOMAIN a}
Start(e) == st' = e.dig /\ Say(IF e.dig = e.sdig THEN {} ELSE {"err.start"}, <<>>)
Bad(e) == /\ st' = e.dig
          /\ Say(If(e.res \in Documented(e.kind), "err.verdict") \cup If(e.dig = st, "err.kept"), <<e.kind, e.res, Differ(e.dig, st)>>)
\* without the warning of loops that do not fit, valid requests succeed; they do the same as in the shadow
Good(e) == /\ st' = e.dig
           /\ Say(If(e.res = e.sres, "err.later") \cup If(e.dig = e.sdig, "err.later") \cup If(e.out = e.sout, "err.later")
                  \cup If(e.res = "ok", "err.valid"),
                  <<e.kind, e.res, e.sres, Differ(e.dig, e.sdig)>>)
Crash(e) == UNCHANGED st /\ Say({"crash"}, e.why)
Init == TInit(LAMBDA c : 0)
Next == TStep /\ LET e == Ev[l] IN CASE e.op = "start" -> Start(e) [] e.op = "bad" -> Bad(e) [] e.op = "good" -> Good(e) [] e.op = "crash" -> Crash(e)
Spec == Init /\ [][Next]_vars
=============================================================================
