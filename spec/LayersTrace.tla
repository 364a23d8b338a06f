---------------------------- MODULE LayersTrace -----------------------------
(* Recorded reconfigurations and samples of variation models, environmental  *)
(* conditions in test steps, and generated initial states.                   *)
EXTENDS Layers, TraceBase

\* ---- reconfiguration ----
After(e, c) == IF e.env THEN EnvFails(c, e.a, e.L, e.C, e.D) ELSE LatentFails(c, e.a, e.L, e.C, e.D)
New(e) == st' = [st EXCEPT !.cfg = e.cfg] /\ Say(After(e, e.cfg), <<e.cfg, e.a>>)
Change(e) ==
  LET c == CASE e.op = "layer" -> SetLayer(st.cfg, e.layer, e.d)
             [] e.op = "type" -> SetType(st.cfg, e.t)
             [] e.op = "base" -> SetBase(st.cfg, e.b)
             [] e.op = "again" -> st.cfg
      v == IF e.op = "type" THEN TypeVerdict(e.t) ELSE "ok"
  IN st' = [st EXCEPT !.cfg = c] /\ Say(After(e, c) \cup If(e.res = v, "lay.verdict"), <<c, e.res, e.a>>)

\* ---- environmental conditions of one step ----
\* Case.conds : sequence of configurations; e.obs : sequence of [prm, c, D, a] (device parameters) ;
\* e.sens : sequence of [c, n, a] with a a sequence of digit vectors.  st.seen : digits of earlier steps
NC == Len(Case.conds)
CellSet(o) == Cells(Case.L, Case.C, o.D)
ObsOf(e, c) == {k \in DOMAIN e.obs : e.obs[k].c = c}
SensOf(e, c) == {k \in DOMAIN e.sens : e.sens[k].c = c}
Batches(e, c) == UNION {Digits(e.obs[k].a, CellSet(e.obs[k]), 2) : k \in ObsOf(e, c)}
                 \cup UNION {{v[2] : v \in {e.sens[k].a[j] : j \in DOMAIN e.sens[k].a}} : k \in SensOf(e, c)}
ChipAt(e, c, lo, ch) == UNION {{e.obs[k].a[lo][ch][d][3] : d \in 1..e.obs[k].D} : k \in ObsOf(e, c)}
ChipDigits(e, c) == UNION {ChipAt(e, c, lo, ch) : lo \in 1..Case.L, ch \in 1..Case.C}
SensDigits(e, c, j) == UNION {{v[j] : v \in {e.sens[k].a[x] : x \in DOMAIN e.sens[k].a}} : k \in SensOf(e, c)}
DevDigits(e, c) == UNION {Digits(e.obs[k].a, CellSet(e.obs[k]), 4) : k \in ObsOf(e, c)}
NSens(e, c) == SumSeq([k \in DOMAIN e.sens |-> IF e.sens[k].c = c THEN e.sens[k].n ELSE 0])
NDev(e, c) == SumSeq([k \in DOMAIN e.obs |-> IF e.obs[k].c = c THEN Case.L * Case.C * e.obs[k].D ELSE 0])
Shapes(e) == /\ \A k \in DOMAIN e.obs : ShapeOk(e.obs[k].a, Case.L, Case.C, e.obs[k].D)
             /\ \A k \in DOMAIN e.sens : Len(e.sens[k].a) = e.sens[k].n
AllDigits(e, c, j) == (UNION {Digits(e.obs[k].a, CellSet(e.obs[k]), j) : k \in ObsOf(e, c)}) \cup SensDigits(e, c, j)
\* two conditions described by one variation model still have draws of their own
Same(c) == IF Case.share /\ c = 2 THEN 1 ELSE c
SeenOf(e, c) == UNION {{<<Same(c), j, x>> : x \in AllDigits(e, c, j) \ {0}} : j \in 2..4}
EnvStep(e) ==
  IF ~Shapes(e) THEN UNCHANGED st /\ Say({"env.shape"}, <<>>)
  ELSE LET used == {c \in 1..NC : ObsOf(e, c) # {} \/ SensOf(e, c) # {}}
           cf(c) == Eff(Case.conds[c])
           fails(c) ==
             If(AllDigits(e, c, 1) = {cf(c).base}, "env.exact")
             \cup If(\A j \in 2..4 : \A x \in AllDigits(e, c, j) :
                       LET d == CASE j = 2 -> cf(c).lot [] j = 3 -> cf(c).chp [] j = 4 -> cf(c).dev
                       IN IF d = 0 THEN x = 0 ELSE DistOf(x) = d, "env.exact")
             \cup If(Single(Batches(e, c)), "env.batch")
             \cup If(\A lo \in 1..Case.L, ch \in 1..Case.C : Single(ChipAt(e, c, lo, ch)), "env.chip")
             \cup If(cf(c).chp = 0 \/ ObsOf(e, c) = {} \/ Cardinality(ChipDigits(e, c)) = Case.L * Case.C, "env.chip")
             \cup If(cf(c).dev = 0 \/ Cardinality(DevDigits(e, c)) = NDev(e, c), "env.dev")
             \cup If(cf(c).chp = 0 \/ (Cardinality(SensDigits(e, c, 3)) = NSens(e, c) /\ SensDigits(e, c, 3) \cap ChipDigits(e, c) = {}), "env.sensor")
             \cup If(cf(c).dev = 0 \/ (Cardinality(SensDigits(e, c, 4)) = NSens(e, c) /\ SensDigits(e, c, 4) \cap DevDigits(e, c) = {}), "env.sensor")
             \cup If(SeenOf(e, c) \cap st.seen = {}, "env.fresh")
             \cup If(\A b \in used \ {c} : SeenOf(e, b) \cap SeenOf(e, c) = {}, "env.fresh")
       IN /\ st' = [st EXCEPT !.seen = @ \cup UNION {SeenOf(e, c) : c \in used}]
          /\ Say(UNION {fails(c) : c \in used}, [c \in used |-> <<fails(c), cf(c)>>])

\* ---- initial states ----
\* Case.prms : [kind, args, cfg, unis]; e.req : requested counts (0 none); e.got : per parameter
\* [L, C, D, a, mechs, same]; a are the digit vectors of the initial values
Need(e, p) == Max2(e.req[p], MaxSeq([q \in DOMAIN Case.prms |->
                 IF Case.prms[q].kind = "circ" /\ InSeq(p, Case.prms[q].args) THEN e.req[q] ELSE 0], 0))
InitState(e) ==
  LET deg == {p \in DOMAIN Case.prms : Case.prms[p].kind = "deg"}
      F(p) == LET g == e.got[p]
              IN IF ~g.there THEN {"init.missing"}
                 ELSE If(g.L = e.L /\ g.C = e.C /\ g.D >= Need(e, p) /\ g.D >= 1, "init.size")
                      \cup If(g.latok, "init.latent")
                      \cup LatentFails(Case.prms[p].cfg, g.a, g.L, g.C, g.D)
                      \cup If(g.mechs = Case.prms[p].unis /\ g.flat, "init.mech")
                      \cup If(g.same, "init.curr")
  IN UNCHANGED st /\ Say(UNION {F(p) : p \in deg} \cup If(e.elapsed = e.want, "init.clock") \cup If(e.kept, "init.caller")
                         \cup If(\A p \in DOMAIN Case.prms : e.got[p].latok, "init.latent"), <<>>)
InitReject(e) == UNCHANGED st /\ Say(If(e.res = "UserConfigError", "init.reject"), e.res)
Crash(e) == UNCHANGED st /\ Say({"crash"}, e.why)

Init == TInit(LAMBDA c : [cfg |-> [type |-> "offset", base |-> 0, lot |-> 0, chp |-> 0, dev |-> 0], seen |-> {}])
Next == TStep /\ LET e == Ev[l] IN CASE e.op = "new" -> New(e) [] e.op \in {"layer", "type", "base", "again"} -> Change(e)
            [] e.op = "step" -> EnvStep(e) [] e.op = "init" -> InitState(e) [] e.op = "noinit" -> InitReject(e) [] e.op = "crash" -> Crash(e)
Spec == Init /\ [][Next]_vars
=============================================================================
