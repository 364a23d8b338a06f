------------------------------- MODULE SimMC --------------------------------
(* Exhaustive design check of Sim on a small population, over every plan of  *)
(* up to MaxLen steps from an alphabet of stress and measurement steps.      *)
(* Also prints every complete plan, to be replayed into the real simulator.  *)
EXTENDS Sim, Json, IOUtils

MaxLen == atoi(IOEnv.MAXLEN)
GenLen == atoi(IOEnv.GENLEN)

H(n) == <<0, 3600 * n, 0>>
\* stress letters: conditions <<ca, cb>> and duration; "z" cannot degrade anything
Letters == [ a |-> [op |-> "stress", cs |-> <<2, 1>>, dur |-> H(1)],
             b |-> [op |-> "stress", cs |-> <<5, 3>>, dur |-> H(2)],
             z |-> [op |-> "stress", cs |-> <<0, 0>>, dur |-> H(3)],
             m |-> [op |-> "meas", cs |-> <<1, 1>>, counts |-> <<2, 1, 2>>],
             n |-> [op |-> "meas", cs |-> <<4, 0>>, counts |-> <<1, 2, 0>>] ]

M(law) == [law |-> law, shape |-> "id", sg |-> 1, un |-> 0, co |-> <<1, 1>>, thr |-> 0,
           co2 |-> <<0, 0>>, thr2 |-> 0, cap |-> 0, capc |-> 0, knee |-> 0, lim |-> 0, fv |-> 0, fvc |-> 0, sp |-> 0,
           unit |-> "", pw |-> 0, r |-> <<1, 2, 1, 3>>, h |-> <<0, 0, 0, 0>>, g |-> <<0, 0, 0, 0>>]
Thr == [M("lin") EXCEPT !.co = <<3, 0>>, !.thr = 4, !.h = <<3, 0, 3, 9>>]   \* some devices degrade only above ca = 2
Lin == [M("lin") EXCEPT !.shape = "quad", !.unit = "s", !.pw = 3]
Sat == [M("sat") EXCEPT !.cap = 5000, !.capc = 4000, !.r = <<1, 2, 3, 1>>, !.g = <<0, 3000, 0, -2000>>]
Knee == [M("knee") EXCEPT !.co2 = <<2, 0>>, !.knee = 6000]
Fail == [M("fail") EXCEPT !.lim = 20000, !.fv = 77000, !.fvc = 1000]
Prm(ms) == [kind |-> "deg", n |-> 2, unit |-> "", comp |-> "sum", init |-> <<10, 20, 30, 40>>,
            w |-> <<>>, shift |-> "none", sco |-> <<0, 0>>, sref |-> <<0, 0>>, slat |-> <<>>,
            mechs |-> ms, args |-> <<>>, ks |-> <<>>]
Circ == [kind |-> "circ", n |-> 2, unit |-> "", comp |-> "sum", init |-> <<>>, w |-> <<1, 2, 3, 4>>,
         shift |-> "none", sco |-> <<5, 0>>, sref |-> <<0, 0>>, slat |-> <<>>, mechs |-> <<>>,
         args |-> <<1, 2>>, ks |-> <<2, -1>>]
Cfg == [lots |-> 1, chps |-> 2, unit |-> "h", elapsed |-> <<1, 5, 7>>, tol |-> 0,
        prms |-> << Prm(<<Thr, Sat, Fail>>), [Prm(<<Lin, Knee>>) EXCEPT !.unit = "ms", !.mechs[2].pw = 6], Circ >>]
\* the same device described in other time units
CfgU == [Cfg EXCEPT !.unit = "d", !.prms[1].mechs = [j \in 1..3 |-> [@[j] EXCEPT !.unit = "hours"]],
                    !.prms[2].mechs[1].unit = "s", !.prms[2].mechs[2].unit = "us", !.prms[2].mechs[2].pw = 9]

VARIABLES st, stU, plan, run
vars == <<st, stU, plan, run>>
\* run: history of the current stretch of stress under one condition: its
\* conditions, total duration and the damage it started from
Init == /\ st = InitState(Cfg) /\ stU = InitState(CfgU) /\ plan = <<>>
        /\ run = [cs |-> <<>>, dur |-> TZero, from |-> InitState(Cfg).dm]
Do(x) ==
  LET L == Letters[x]
  IN /\ plan' = Append(plan, x)
     /\ IF L.op = "stress"
        THEN /\ st' = StressStep(Cfg, st, LAMBDA p, k : L.cs, L.dur)
             /\ stU' = StressStep(CfgU, stU, LAMBDA p, k : L.cs, L.dur)
             /\ run' = IF run.cs = L.cs THEN [run EXCEPT !.dur = TAdd(run.dur, L.dur)]
                       ELSE [cs |-> L.cs, dur |-> L.dur, from |-> st.dm]
        ELSE /\ st' = MeasStep(Cfg, st, RowsDue(Cfg, L.counts, <<0, 0>>), st.seen)
             /\ stU' = MeasStep(CfgU, stU, RowsDue(Cfg, L.counts, <<0, 0>>), stU.seen)
             /\ UNCHANGED run
Next == Len(plan) < MaxLen /\ \E x \in DOMAIN Letters : Do(x)
Spec == Init /\ [][Next]_vars

Devs == {<<p, j, k>> \in (1..2) \X (1..3) \X (1..4) : j \in DOMAIN Cfg.prms[p].mechs}
Dm(s, x) == s.dm[x[1]][x[2]][x[3]]
Law(x) == Cfg.prms[x[1]].mechs[x[2]].law

(* C01 *) ClockIsSum == st.clock = TAdd(Cfg.elapsed, TSum([k \in 1..Len(plan) |->
                           IF Letters[plan[k]].op = "stress" THEN Letters[plan[k]].dur ELSE TZero]))
          /\ st.n = Len(plan)
(* C02 *) RowsAddUp == st.nrows = SumSeq([k \in 1..Len(plan) |->
                           IF Letters[plan[k]].op = "meas" THEN Cardinality(Labels(Cfg, Letters[plan[k]].counts)) ELSE 0])
(* C03 *) SplitIndependent ==        \* a stretch under one condition equals one interval of its total length
  run.cs # <<>> =>
    \A x \in Devs : Law(x) # "fail" =>
      LET m == Cfg.prms[x[1]].mechs[x[2]]
          t == TTicks(run.dur, MechUnit(Cfg, x[1], x[2]), m.pw)
      IN Dm(st, x) = FlowI(m, run.cs, x[3], run.from[x[1]][x[2]][x[3]], t, 0)
(* C08 *) UnitFree == st.dm = stU.dm /\ st.clock = stU.clock
Exact == \A x \in Devs : Dm(st, x)[1] = Dm(st, x)[2]
CircFollows ==     \* C18: the circuit value is the combination of true values, device by device
  \A c \in 0..1, d \in 0..1 :
    LET k == c * 2 + d + 1
    IN CircVal(Cfg, st, 3, 0, c, d, <<3, 0>>)[1]
       = 2 * TrueVal(Cfg, st, 1, k)[1] - TrueVal(Cfg, st, 2, k)[2] + Cfg.prms[3].w[k] + 15
(* action properties *)
Last == Letters[plan'[Len(plan')]]
NeverLost == [][\A x \in Devs : Dm(st', x)[1] >= Dm(st, x)[1]]_vars                          \* C03, C04
IdleKeeps == [][(Last.op = "stress" /\ Last.cs = <<0, 0>>) => st'.dm = st.dm /\ st'.gen = st.gen]_vars   \* C04
GenSound == [][\A p \in 1..2, k \in 1..4 : st'.gen[p][k] = st.gen[p][k] =>
                 \A j \in DOMAIN Cfg.prms[p].mechs : st'.dm[p][j][k] = st.dm[p][j][k]]_vars   \* C04
FailSticks == [][\A x \in Devs : Law(x) = "fail" /\ Dm(st, x)[1] # 0 => Dm(st', x) = Dm(st, x)]_vars  \* C05
FailForgets == [][\A x \in Devs : Law(x) = "fail" /\ Dm(st, x)[1] = 0 /\ Last.op = "stress" =>
                    LET m == Cfg.prms[x[1]].mechs[x[2]]
                    IN Dm(st', x)[1] = Flow(m, Last.cs, x[3], 0, TTicks(Last.dur, "hours", 0))]_vars  \* C05
MeasPure == [][Last.op = "meas" => st'.dm = st.dm /\ st'.gen = st.gen /\ st'.clock = st.clock]_vars      \* C06
\* vacuity witnesses: each must be reachable (checked by the harness through the printed coverage)
Witness == (IF Len(plan) = GenLen
            THEN PrintT("GEN|" \o ToJson([plan |-> plan,
                   failed |-> \E x \in Devs : Law(x) = "fail" /\ Dm(st, x)[1] # 0,
                   damaged |-> \E x \in Devs : Law(x) = "lin" /\ Dm(st, x)[1] # 0,
                   capped |-> \E x \in Devs : Law(x) = "sat" /\ Dm(st, x)[1] > 5000])) ELSE TRUE)
=============================================================================
