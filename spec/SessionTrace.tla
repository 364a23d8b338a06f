---------------------------- MODULE SessionTrace ----------------------------
(* Recorded sessions of the real simulator against Session.                  *)
EXTENDS Session, TraceBase
Tab == Case.tab
\* digests are <<kind, id>> in a fixed order
Keep(e) == UNION {If(e.dig[k] = st.dig[k], "keep." \o st.dig[k][1]) : k \in DOMAIN st.dig}
Start(e) == st' = [dig |-> e.dig, seen |-> <<>>, reps |-> <<>>] /\ Say({}, <<>>)
\* e.rows: <<step number from 0, label id, value id>> of the values of ideally measured parameters
RowKey(e, k) == Key(Tab, e.plan, e.rows[k][1] + 1, e.rows[k][2], <<e.setup, e.env>>)
Run(e) ==
  LET rk == <<e.plan, e.setup, e.env, e.instm>>
      ok == e.res = "ok"
      pairs == IF e.keyed THEN {<<RowKey(e, k), e.rows[k][3]>> : k \in DOMAIN e.rows} ELSE {}
      keys == {x[1] : x \in pairs}
      hopeless == \E k \in DOMAIN e.plan : Tab[e.plan[k]].op = "bad"
  IN /\ st' = [st EXCEPT !.seen = [x \in keys |-> (CHOOSE y \in pairs : y[1] = x)[2]] @@ st.seen,
                         !.reps = (rk :> <<e.res, e.rep>>) @@ st.reps]
     /\ Say(Keep(e) \cup If(ok = ~hopeless, "run.verdict")
            \cup If(Cardinality(pairs) = Cardinality(keys), "twin.same")
            \cup If(\A x \in pairs : x[1] \in DOMAIN st.seen => st.seen[x[1]] = x[2], "twin.other")
            \cup If(rk \notin DOMAIN st.reps \/ st.reps[rk] = <<e.res, e.rep>>, "repro.report"), <<e.plan, e.res>>)
Crash(e) == UNCHANGED st /\ Say({"crash"}, e.why)
Init == TInit(LAMBDA c : 0)
Next == TStep /\ LET e == Ev[l] IN CASE e.op = "start" -> Start(e) [] e.op = "run" -> Run(e) [] e.op = "crash" -> Crash(e)
Spec == Init /\ [][Next]_vars
=============================================================================
