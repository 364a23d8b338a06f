------------------------------ MODULE RvTrace -------------------------------
(* Recorded constructions, changes and samples of random variables.          *)
(* st : sequence of the case's variables                                     *)
EXTENDS Rv, TraceBase
New(e) == st' = Append(st, e.v) /\ Say(If(e.res = "ok", "rv.refused"), <<e.v, e.res>>)
Chg(e) == LET w == IF e.op = "prm" THEN SetPrm(st[e.k], e.f, e.x) ELSE Centre(st[e.k], e.how, e.x)
          IN st' = [st EXCEPT ![e.k] = w]
             /\ Say(If(e.res = "ok", "rv.refused") \cup If(w.kind # "norm" \/ e.centre = w.a, "rv.centre"), <<w, e>>)
\* e.asked, e.lens : requested and delivered numbers of values, call by call; e.q : observed quantiles of all
\* e.n values together; e.lag, e.cross : correlation of successive values and with another variable, in ten-thousandths
Sample(e) ==
  LET v == st[e.k]
  IN UNCHANGED st /\
     Say(If(e.lens = e.asked /\ e.flat, "rv.count")
         \cup If(e.fin /\ LowOk(v, e.lo) /\ HighOk(v, e.hi), "rv.support")
         \cup If(\A k \in 1..NQ : AbsI(e.q[k] - Quant(v, k)) <= Slack(v, k), "rv.dist")
         \cup If(IF Varies(v) THEN e.diff = e.n ELSE e.diff = 1, "rv.fresh")
         \cup If(Varies(v) => AbsI(e.lag) <= 430 /\ AbsI(e.cross) <= 430, "rv.indep"), <<v, e>>)
\* two variables of the same kind and parameters, sampled alike: same values exactly if seeded alike (0: not seeded)
Twin(e) == UNCHANGED st /\
  Say(If(~Varies(st[e.k]) \/ (e.a = e.b) = (e.seeda = e.seedb /\ e.seeded), "rv.seed"), <<st[e.k], e>>)
Crash(e) == UNCHANGED st /\ Say({"crash"}, e.why)
Init == TInit(LAMBDA c : <<>>)
Next == TStep /\ LET e == Ev[l] IN CASE e.op = "new" -> New(e) [] e.op \in {"prm", "centre"} -> Chg(e)
            [] e.op = "sample" -> Sample(e) [] e.op = "twin" -> Twin(e) [] e.op = "crash" -> Crash(e)
Spec == Init /\ [][Next]_vars
=============================================================================
