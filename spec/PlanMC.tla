------------------------------- MODULE PlanMC -------------------------------
(* Every sequence of up to MaxOps plan operations over a small library.      *)
EXTENDS Plan, Json, IOUtils
MaxOps == atoi(IOEnv.MAXOPS)
GenLen == atoi(IOEnv.GENLEN)
Lib == << [k |-> "s", dur |-> <<0, 3600, 0>>], [k |-> "s", dur |-> <<0, 5400, 0>>],
          [k |-> "m", counts |-> <<2, 0>>], [k |-> "m", counts |-> <<1, 3>>] >>
Groups == { <<1>>, <<3>>, <<1, 3>>, <<4, 2, 3, 1>>, <<3, 4>>, <<>> }
Targets == { TZero, <<0, 3600, 0>>, <<0, 10800, 0>>, <<0, 9000, 0>>, <<0, 3599, 999999>> }
Ops == {[op |-> "append", g |-> g] : g \in Groups}
       \cup {[op |-> "loop", g |-> g, t |-> t] : g \in Groups, t \in Targets}
       \cup {[op |-> "iter"]}
VARIABLES plan, hist
vars == <<plan, hist>>
Init == plan = <<>> /\ hist = <<>>
Do(o) == /\ hist' = Append(hist, o)
         /\ plan' = CASE o.op = "append" -> Append_(plan, o.g)
                      [] o.op = "loop" -> Loop(Lib, plan, o.g, o.t)
                      [] o.op = "iter" -> plan
Next == Len(hist) < MaxOps /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
Last == hist'[Len(hist')]
Suffix == SubSeq(plan', Len(plan) + 1, Len(plan'))
\* earlier steps stay where they are: plans only ever grow at the end
OnlyGrows == [][SubSeq(plan', 1, Len(plan)) = plan]_vars
\* a loop adds whole groups, reaches the target, and would not without its last group
LoopExact == [][Last.op = "loop" /\ LoopVerdict(Lib, Last.g, Last.t) # "reject" =>
   \E n \in 1..4 : /\ Suffix = Repeat(Last.g, n)
                   /\ TLeq(Last.t, TMul(GroupTime(Lib, Last.g), n))
                   /\ TLess(TMul(GroupTime(Lib, Last.g), n - 1), Last.t)
                   /\ (LoopVerdict(Lib, Last.g, Last.t) = "ok") = (TMul(GroupTime(Lib, Last.g), n) = Last.t)]_vars
RejectKeeps == [][Last.op = "loop" /\ LoopVerdict(Lib, Last.g, Last.t) = "reject" => plan' = plan]_vars
SamplesMonotone == [][\A p \in 1..2 : Samples(Lib, plan', 2)[p] >= Samples(Lib, plan, 2)[p]]_vars
Gen == IF Len(hist) = GenLen THEN PrintT("GEN|" \o ToJson(hist)) ELSE TRUE
=============================================================================
