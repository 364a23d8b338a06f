------------------------------ MODULE SimTrace ------------------------------
(* Validates recorded simulations (one case per line of the trace file)      *)
(* against Sim.  Every event is checked clause by clause; the names of the   *)
(* clauses that fail are printed, so a verdict is always total.              *)
EXTENDS Sim, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, st, bad
vars == <<i, l, st, bad>>

Cfg == Cases[i].cfg
Ev == Cases[i].ev

SumClauses(e) ==      \* the summary rows found for this step
  IF Len(e.sum) # 1 THEN {"sum.one"}
  ELSE LET s == e.sum[1]
           dur == IF e.op = "stress" THEN e.dur ELSE TZero
       IN (IF s.no = st.n /\ s.pos = st.n THEN {} ELSE {"sum.no"})
          \cup (IF s.name = e.name THEN {} ELSE {"sum.name"})
          \cup (IF s.type = (IF e.op = "stress" THEN "stress" ELSE "measure") THEN {} ELSE {"sum.type"})
          \cup (IF s.conds = e.conds THEN {} ELSE {"sum.conds"})
          \cup (IF s.dur = dur THEN {} ELSE {"sum.dur"})
          \cup (IF s.start = st.clock THEN {} ELSE {"sum.start"})
          \cup (IF s.end = TAdd(st.clock, dur) THEN {} ELSE {"sum.end"})

\* rows are <<p, lot, chip, device, value, id, d, s, us, twin>>; twin: difference in parts per billion from the
\* same test with all equations written for arrays; p > 100 is a sensor of condition p - 100
Label(r) == <<r[1], r[2], r[3], r[4]>>
\* the conditions device k of parameter p saw in the step: its own when they vary, else those of the step.
\* e.cv[p] = <<>> when nothing varies (e.co[p]: the conditions that were observed); e.cv[p][k] = <<>> for devices whose conditions were not observed
Seen(e, p, k) == IF e.cv[p] = <<>> \/ e.cv[p][k] = <<>> THEN e.conds ELSE e.cv[p][k]
SeenAt(e, lab) == Seen(e, lab[1], Flat(Cfg, lab[1], lab[2], lab[3], lab[4]))
Due(e, r) == Expected(Cfg, st, r[1], r[2], r[3], r[4], SeenAt(e, Label(r)))
Off(e, r) == LET iv == Due(e, r) IN r[5] < iv[1] - 2 \/ r[5] > iv[2] + 2
CondKey(p, cs) ==
  IF IsDeg(Cfg, p) THEN (IF Cfg.prms[p].shift = "none" THEN <<>> ELSE cs)
  ELSE (IF \A j \in DOMAIN Cfg.prms[p].sco : Cfg.prms[p].sco[j] = 0 THEN <<>> ELSE cs)
GenOf(lab) ==
  LET p == lab[1]
  IN IF IsDeg(Cfg, p) THEN st.gen[p][Flat(Cfg, p, lab[2], lab[3], lab[4])]
     ELSE SumSeq([j \in DOMAIN Cfg.prms[p].args |->
                    LET a == Cfg.prms[p].args[j] IN st.gen[a][Flat(Cfg, a, lab[2], lab[3], lab[4])]])

\* varied conditions: all mechanisms of a parameter see the same ones (cvok), what is declared per chip is shared by
\* all devices of the chip across parameters, what is declared per batch by everything, the rest is exactly the target
ChipOf(p, k) == (k - 1) \div Cfg.prms[p].n
CondClauses(e) ==
  LET obs(c) == UNION {{<<p, k>> : k \in {x \in DOMAIN e.cv[p] : e.cv[p][x] # <<>>}} : p \in {q \in DOMAIN e.cv : InSeq(c, e.co[q])}}
      at(x, c) == e.cv[x[1]][x[2]][c]
      ok(c) == LET v == Cfg.vary[c]
               IN IF ~v.on THEN \A x \in obs(c) : at(x, c) = e.conds[c]
                  ELSE IF v.dev THEN TRUE
                  ELSE \A x \in obs(c), y \in obs(c) : (~v.chp \/ ChipOf(x[1], x[2]) = ChipOf(y[1], y[2])) => at(x, c) = at(y, c)
  IN (IF e.cvin THEN {} ELSE {"cond.value"})     \* not a combination of the target with declared draws
     \cup (IF e.cvok THEN {} ELSE {"cond.mech"}) \cup (IF \A c \in 1..2 : ok(c) THEN {} ELSE {"cond.share"})

\* the value belongs to some other device of the same parameter: a wrong label
OtherDevice(e, r) ==
  \E lo \in 0..(Cfg.lots - 1), c \in 0..(Cfg.chps - 1), d \in 0..(Cfg.prms[r[1]].n - 1) :
    LET iv == Expected(Cfg, st, r[1], lo, c, d, SeenAt(e, <<r[1], lo, c, d>>))
    IN <<lo, c, d>> # <<r[2], r[3], r[4]>> /\ iv[1] - 2 <= r[5] /\ r[5] <= iv[2] + 2

RowClauses(e) ==
  LET R == e.rows
      due == Labels(Cfg, e.counts)
      dev == {j \in DOMAIN R : R[j][1] < 100}
      got == {Label(R[j]) : j \in dev}
      ok == {j \in dev : Label(R[j]) \in due}
      fail(j) == LET p == R[j][1] IN \E m \in DOMAIN Cfg.prms[p].mechs : Cfg.prms[p].mechs[m].law = "fail"
      wrong == {j \in ok : Off(e, R[j])}
      prior(j) == <<Label(R[j]), CondKey(R[j][1], SeenAt(e, Label(R[j])))>>
      differs == {j \in ok : /\ prior(j) \in DOMAIN st.seen
                             /\ st.seen[prior(j)].gen = GenOf(Label(R[j]))
                             /\ st.seen[prior(j)].id # R[j][6]}
  IN (IF due \subseteq got THEN {} ELSE {"rows.missing"})
     \cup (IF got \subseteq due THEN {} ELSE {"rows.extra"})
     \cup (IF Cardinality(dev) = Cardinality(got) THEN {} ELSE {"rows.dup"})
     \cup (IF \A j \in DOMAIN R : <<R[j][7], R[j][8], R[j][9]>> = st.clock THEN {} ELSE {"rows.time"})
     \cup (IF \A k \in DOMAIN e.sens :
               LET s == {j \in DOMAIN R : R[j][1] = 100 + k}
               IN Cardinality(s) = e.sens[k] /\ \A j \in s : R[j][2] = -1 /\ R[j][3] = -1 /\ R[j][4] = -1
           THEN {} ELSE {"rows.sensor"})
     \cup (IF \A k \in DOMAIN e.sens : \A j \in DOMAIN R :
               R[j][1] = 100 + k => (R[j][5] = 1000 * e.conds[k] \/ Cfg.vary[k].on)
           THEN {} ELSE {"val.sensor"})
     \cup (IF \E j \in wrong : IsDeg(Cfg, R[j][1]) /\ st.strs = 0 THEN {"val.init"} ELSE {})
     \cup (IF \E j \in wrong : IsDeg(Cfg, R[j][1]) /\ st.strs > 0 /\ fail(j) THEN {"val.fail"} ELSE {})
     \cup (IF \E j \in wrong : IsDeg(Cfg, R[j][1]) /\ st.strs > 0 /\ ~fail(j) THEN {"val.deg"} ELSE {})
     \cup (IF \E j \in wrong : ~IsDeg(Cfg, R[j][1]) THEN {"val.circ"} ELSE {})
     \cup (IF \E j \in wrong : OtherDevice(e, R[j]) THEN {"val.label"} ELSE {})
     \cup (IF \A j \in DOMAIN R : R[j][10] <= (IF st.strs = 0 THEN 2 ELSE 100000) THEN {} ELSE {"twin.ew"})
     \cup (IF \E j \in differs : st.seen[prior(j)].strs = st.strs THEN {"same.meas"} ELSE {})
     \cup (IF \E j \in differs : st.seen[prior(j)].strs # st.strs THEN {"same.idle"} ELSE {})

SeenAfter(e) ==
  LET R == e.rows
      ok == {j \in DOMAIN R : R[j][1] < 100 /\ Label(R[j]) \in Labels(Cfg, e.counts)}
      key(j) == <<Label(R[j]), CondKey(R[j][1], SeenAt(e, Label(R[j])))>>
      keys == {key(j) : j \in ok}
  IN [x \in keys |-> LET j == CHOOSE j \in ok : key(j) = x
                     IN [id |-> R[j][6], gen |-> GenOf(x[1]), strs |-> st.strs]] @@ st.seen

\* details for replaying a rejection by hand: the first rows that are off, and what was due
Details(e) ==
  LET R == e.rows
      ok == {j \in DOMAIN R : R[j][1] < 100 /\ Label(R[j]) \in Labels(Cfg, e.counts)}
      wrong == {j \in ok : Off(e, R[j])}
  IN IF wrong = {} THEN <<>>
     ELSE LET j == CHOOSE j \in wrong : \A k \in wrong : j <= k
          IN <<Label(R[j]), R[j][5], Due(e, R[j])>>
Report(b) == IF b = {} THEN TRUE ELSE PrintT("REJECT|" \o ToString(Cases[i].id) \o "|" \o ToString(l) \o "|" \o ToString(b)
                \o (IF Ev[l].op = "meas" THEN "|" \o ToString(Details(Ev[l])) ELSE "|"))
Say(b) == bad' = b /\ Report(b)

Stress(e) ==
  /\ st' = StressStep(Cfg, st, LAMBDA p, k : Seen(e, p, k), e.dur)
  /\ Say(SumClauses(e) \cup CondClauses(e) \cup (IF e.rows = <<>> THEN {} ELSE {"rows.extra"}))
Measure(e) ==
  /\ st' = MeasStep(Cfg, st, Len(e.rows), SeenAfter(e))
  /\ Say(SumClauses(e) \cup CondClauses(e) \cup RowClauses(e))
End(e) ==
  /\ UNCHANGED st
  /\ Say((IF e.nsum = st.n THEN {} ELSE {"sum.count"})
         \cup (IF e.nmeas = st.nrows THEN {} ELSE {"rows.count"}))
Crash(e) == UNCHANGED st /\ Say({"crash"})

Init == /\ i \in DOMAIN Cases /\ l = 1 /\ bad = {}
        /\ st = InitState(Cases[i].cfg)
Next == /\ l <= Len(Ev)
        /\ l' = l + 1 /\ i' = i
        /\ LET e == Ev[l]
           IN CASE e.op = "stress" -> Stress(e)
                [] e.op = "meas" -> Measure(e)
                [] e.op = "end" -> End(e)
                [] e.op = "crash" -> Crash(e)
Spec == Init /\ [][Next]_vars
\* the whole of every trace was consumed
Consumed == TLCGet("stats").distinct = SumSeq([k \in DOMAIN Cases |-> Len(Cases[k].ev) + 1])
=============================================================================
