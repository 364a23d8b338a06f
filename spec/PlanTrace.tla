------------------------------ MODULE PlanTrace -----------------------------
(* Recorded plan operations, and prebuilt tests, against Plan.               *)
EXTENDS Plan, TraceBase

Lib == Case.lib
\* what the plan looks like after an operation: the steps, their own content, and the samples needed
After(e, plan) ==
  If(e.plan = plan, "plan.steps")
  \cup If(e.iter = plan, "plan.iter")
  \cup If(e.again = plan, "plan.iter")
  \cup If(e.libok, "plan.content")
  \cup If(e.samples = Samples(Lib, plan, Case.np), "plan.samples")

New(e) == st' = e.g /\ Say(After(e, e.g), <<>>)
App(e) == LET p == Append_(st, e.g)
          IN st' = p /\ Say(After(e, p) \cup If(e.res = "ok", "plan.refused"), <<p, e.plan>>)
\* known finding: no warning when the added time is a larger whole multiple of the requested time;
\* judged strictly in the case dedicated to it only
Tolerated(e, v) == ~Case.strict /\ v = "warn" /\ e.res = "ok" /\ Multiple(Lib, e.g, e.t)
Lp(e)  == LET v == LoopVerdict(Lib, e.g, e.t)
              p == Loop(Lib, st, e.g, e.t)
          IN st' = p /\ Say(After(e, p) \cup If(e.res = v \/ Tolerated(e, v), "loop." \o v), <<v, e.res, p, e.plan>>)
\* reading the plan, completely or only partly, changes nothing
Rd(e) == UNCHANGED st /\ Say(After(e, st), <<>>)
\* the caller changes a list that was handed over earlier
Mut(e) == UNCHANGED st /\ Say(After(e, st), <<>>)

(* ---- cookbook: the prebuilt HTOL test ---- *)
\* rows are <<kind, hours, centikelvin, microvolt>>
Room(a) == <<"m", 0, 29815, a.vdd * 1000>>
Hot(a, k, h) == <<k, h, a.temp * 100 + 27315, a.vdd * a.mult>>
Htol(a) ==
  IF a.intrvl >= a.dur THEN << Room(a), Hot(a, "s", a.dur), Room(a) >>
  ELSE << Room(a), Hot(a, "m", 0) >> \o Repeat(<< Hot(a, "s", a.intrvl), Hot(a, "m", 0) >>, a.dur \div a.intrvl)
       \o << Room(a) >>
HtolRejects(a) == a.intrvl < a.dur /\ a.dur % a.intrvl # 0
Cook(e) ==
  LET a == e.a
  IN UNCHANGED st /\
     Say(IF HtolRejects(a) THEN If(e.res = "UserConfigError", "htol.reject")
         ELSE IF e.res # "ok" THEN {"htol.refused"}
         ELSE If(e.rows = Htol(a), "htol.steps")
              \cup If(\A k \in DOMAIN e.meas : e.meas[k] = a.meas, "htol.meas")
              \cup If(e.chps = a.chps /\ e.lots = a.lots, "htol.size"),
         <<>>)
\* the stress time applied in total
(* ---- cookbook: environments ---- *)
\* observed figures against documented figures with relative tolerance e.ppm parts per million plus one
Fig(e) == UNCHANGED st /\
  Say(UNION {If(AbsI(f.got - f.want) <= f.tol, "env." \o f.name) : f \in {e.figs[k] : k \in DOMAIN e.figs}}, e.figs)
Crash(e) == UNCHANGED st /\ Say({"crash"}, e.why)

Init == TInit(LAMBDA c : <<>>)
Next == TStep /\ LET e == Ev[l] IN CASE e.op = "new" -> New(e) [] e.op = "append" -> App(e) [] e.op = "loop" -> Lp(e)
                  [] e.op = "read" -> Rd(e) [] e.op = "mutate" -> Mut(e) [] e.op = "htol" -> Cook(e)
                  [] e.op = "figs" -> Fig(e) [] e.op = "crash" -> Crash(e)
Spec == Init /\ [][Next]_vars
=============================================================================
