------------------------------ MODULE SessionMC -----------------------------
(* Simulations that work on a copy of the state, step by step, and may stop  *)
(* half way because of a step that cannot be executed.                       *)
EXTENDS Session, TLC, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
MaxRuns == 2
Tab == << [op |-> "stress", conds |-> <<1>>, r |-> 2], [op |-> "stress", conds |-> <<2>>, r |-> 5],
          [op |-> "meas", conds |-> <<1>>, r |-> 0], [op |-> "meas", conds |-> <<3>>, r |-> 0],
          [op |-> "bad", conds |-> <<1>>, r |-> 0] >>
Devs == 0..1
VARIABLES store, plan, pos, work, obs, results, seen
vars == <<store, plan, pos, work, obs, results, seen>>
\* store: what the user holds; work: the copy that a running simulation changes
Init == /\ store = [d \in Devs |-> 10 * d] /\ plan = <<>> /\ pos = 0 /\ work = <<>>
        /\ obs = <<>> /\ results = <<>> /\ seen = {}
Plans == UNION {[1..n -> 1..Len(Tab)] : n \in 1..MaxLen}
Start(p) == /\ plan = <<>> /\ Len(results) < MaxRuns /\ plan' = p /\ pos' = 1 /\ work' = store /\ obs' = <<>>
            /\ UNCHANGED <<store, results, seen>>
Step == /\ plan # <<>> /\ pos <= Len(plan)
        /\ LET s == Tab[plan[pos]]
           IN CASE s.op = "stress" -> work' = [d \in Devs |-> work[d] + s.r * (d + 1)] /\ UNCHANGED <<obs, seen, plan, results>> /\ pos' = pos + 1
                [] s.op = "meas" -> /\ obs' = Append(obs, [d \in Devs |-> work[d] + 100 * s.conds[1]])
                                    /\ seen' = seen \cup {<<Key(Tab, plan, pos, d, 0), work[d] + 100 * s.conds[1]>> : d \in Devs}
                                    /\ UNCHANGED <<work, plan, results>> /\ pos' = pos + 1
                [] s.op = "bad" -> work' = <<>> /\ plan' = <<>> /\ pos' = 0 /\ obs' = <<>>
                                   /\ results' = Append(results, [plan |-> plan, res |-> "failed", obs |-> <<>>]) /\ UNCHANGED seen
        /\ UNCHANGED store
Finish == /\ plan # <<>> /\ pos > Len(plan) /\ results' = Append(results, [plan |-> plan, res |-> "ok", obs |-> obs])
          /\ plan' = <<>> /\ pos' = 0 /\ work' = <<>> /\ obs' = <<>> /\ UNCHANGED <<store, seen>>
Next == (\E p \in Plans : Start(p)) \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Kept == [][store' = store]_vars
Reproducible == \A a, b \in DOMAIN results : results[a].plan = results[b].plan => results[a] = results[b]
NoTrace == \A a, b \in seen : a[1] = b[1] => a[2] = b[2]
Gen == Len(results) = MaxRuns => PrintT("GEN|" \o ToJson([k \in 1..MaxRuns |-> results[k].plan]))
=============================================================================
