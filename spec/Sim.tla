-------------------------------- MODULE Sim ---------------------------------
(* The wear-out simulation as a state machine.                               *)
(*                                                                           *)
(* A device population is lots x chips x devices; each degrading parameter   *)
(* has mechanisms, each of which is a *flow*: given the damage a device has  *)
(* and the conditions, how far does it get in a number of ticks.  A flow is  *)
(* what "equivalent stress time" means observationally.  Damage is kept as   *)
(* an interval <<lo, hi>> (thousandths), so that the same operators describe *)
(* the exact design (tol = 0) and the implementation with the tolerance its  *)
(* equivalent time solver is allowed (tol = 1).                              *)
EXTENDS Base

(* ------------------------------ physics ---------------------------------- *)
\* acceleration for conditions cs: linear combination above a threshold
Rate(co, thr, cs) == Max2(SumSeq([i \in DOMAIN co |-> co[i] * cs[i]]) - thr, 0)

\* k is the device: m.r scales its rate, m.h raises its threshold and m.g its saturation level
Cap(m, cs, k) == m.cap + m.capc * cs[1] + m.g[k]
R1(m, cs, k) == m.r[k] * Rate(m.co, m.thr + m.h[k], cs)
R2(m, cs, k) == m.r[k] * Rate(m.co2, m.thr2, cs)

Flow(m, cs, k, v, ticks) ==
  LET R == R1(m, cs, k)
  IN CASE m.law = "none" -> v
       [] m.law = "lin"  -> v + R * ticks
       [] m.law = "sat"  -> IF R = 0 \/ v >= Cap(m, cs, k) THEN v
                            ELSE Min2(v + R * ticks, Cap(m, cs, k))
       [] m.law = "knee" -> LET Rb == R2(m, cs, k)
                            IN IF R = 0 \/ Rb = 0 THEN v
                               ELSE IF v >= m.knee THEN v + Rb * ticks
                               ELSE LET rem == (m.knee - v) \div R
                                    IN IF ticks <= rem THEN v + R * ticks
                                       ELSE m.knee + Rb * (ticks - rem)
       [] m.law = "fail" -> IF v # 0 THEN v                   \* permanent
                            ELSE IF R * ticks > m.lim          \* memoryless
                                 THEN m.fv + m.fvc * cs[1] ELSE 0

\* largest damage per tick, used to bound rounding of ticks; m.sl: the ticks that may be lost or won in a step, two for
\* rounding and those of the shortest time that is considered at all, a thousandth of a microsecond
Steep(m, cs, k) == R1(m, cs, k) + (IF m.law = "knee" THEN R2(m, cs, k) ELSE 0)

FlowI(m, cs, k, iv, ticks, tol) ==
  LET lo == Flow(m, cs, k, iv[1], ticks)
      hi == Flow(m, cs, k, iv[2], ticks)
      w(x) == IF tol = 0 THEN 0 ELSE m.sl * Steep(m, cs, k) + (x \div 50000) + 2
  IN IF m.law \in {"none", "fail"} \/ (lo = iv[1] /\ hi = iv[2]) THEN <<lo, hi>>
     ELSE <<lo - w(lo), hi + w(hi)>>

\* can this stress not possibly change the device's damage?  Then it must not.
Frozen(m, cs, k, iv, ticks) ==
  CASE m.law = "none" -> TRUE
    [] m.law = "fail" -> Flow(m, cs, k, iv[1], ticks) = iv[1]
    [] m.law = "sat"  -> R1(m, cs, k) = 0 \/ iv[1] > Cap(m, cs, k)
    [] OTHER          -> R1(m, cs, k) = 0

\* observable mechanism value from damage
Quad(u) == LET a == u \div 1000 IN a * a + (2000 * a * (u % 1000) + (u % 1000) * (u % 1000)) \div 1000000
Shape(m, u, up) ==      \* up = 1: round up
  CASE m.shape = "id" -> u
    [] m.shape = "quad" -> (IF u <= 0 THEN 0 ELSE Quad(u)) + up
    [] m.shape = "root" -> (IF u <= 0 THEN 0 ELSE ISqrt(1000 * u)) + up
MechVal(m, iv) ==
  IF m.sg > 0 THEN <<m.un + Shape(m, iv[1], 0), m.un + Shape(m, iv[2], 1)>>
  ELSE <<m.un - Shape(m, iv[2], 1), m.un - Shape(m, iv[1], 0)>>

(* ---------------------------- populations -------------------------------- *)
\* devices of one parameter are a flat sequence, lot -> chip -> device
NFlat(cfg, p) == cfg.lots * cfg.chps * cfg.prms[p].n
Flat(cfg, p, l, c, d) == ((l * cfg.chps) + c) * cfg.prms[p].n + d + 1
IsDeg(cfg, p) == cfg.prms[p].kind = "deg"

SumI(ivs) == <<SumSeq([i \in DOMAIN ivs |-> ivs[i][1]]), SumSeq([i \in DOMAIN ivs |-> ivs[i][2]])>>

\* interval times k thousandths
MulI(iv, k) == IF k >= 0 THEN <<(iv[1] * k) \div 1000, CeilDiv(iv[2] * k, 1000)>>
               ELSE <<(iv[2] * k) \div 1000, CeilDiv(iv[1] * k, 1000)>>

\* a failure may leave nothing to measure: m.sp is then what the parameter becomes, infinite or undefined
IsOdd(x) == x >= 2100000000
AnyOdd == <<2100000000, 2100000020>>
Odd(cfg, st, p, k) == {j \in DOMAIN cfg.prms[p].mechs : cfg.prms[p].mechs[j].sp # 0 /\ st.dm[p][j][k][1] # 0}
\* true value of a degrading parameter's device k, referenced to neutral conditions
TrueVal(cfg, st, p, k) ==
  IF Odd(cfg, st, p, k) # {} THEN LET j == CHOOSE j \in Odd(cfg, st, p, k) : TRUE IN <<cfg.prms[p].mechs[j].sp, cfg.prms[p].mechs[j].sp>>
  ELSE LET P == cfg.prms[p]
      ms == [j \in DOMAIN P.mechs |-> MechVal(P.mechs[j], st.dm[p][j][k])]
      s == SumI(ms)
      i0 == P.init[k]
  IN CASE P.comp = "sum" -> <<i0 + s[1], i0 + s[2]>>
       [] P.comp = "sub" -> <<i0 - s[2], i0 - s[1]>>
       [] P.comp = "lat" -> <<i0 + P.w[k] * s[1], i0 + P.w[k] * s[2]>>
       [] P.comp = "mul" -> MulI(ms[1], i0)
       [] P.comp \in {"mix", "mixm"} -> LET x == MulI(ms[1], i0)       \* the first mechanism scales, the others add
                            IN <<x[1] + s[1] - ms[1][1], x[2] + s[2] - ms[1][2]>>
       [] P.comp = "const" -> <<P.w[k], P.w[k]>>

\* what an ideal instrument shows at conditions cs
Shown(cfg, st, p, k, cs) ==
  LET P == cfg.prms[p]
      v == TrueVal(cfg, st, p, k)
      sh == IF P.shift = "none" THEN 0
            ELSE SumSeq([i \in DOMAIN P.sco |-> P.sco[i] * (cs[i] - P.sref[i])]) + P.slat[k]
  IN IF IsOdd(v[1]) THEN v
     ELSE IF P.comp \in {"mul", "mixm"}        \* the conditional shift scales
     THEN IF P.shift = "none" THEN v
          ELSE MulI(v, 1000 + sh)
     ELSE IF P.comp = "const" THEN v
     ELSE IF P.comp = "lat" THEN <<v[1] + P.w[k] * sh, v[2] + P.w[k] * sh>>
     ELSE <<v[1] + sh, v[2] + sh>>

CircVal(cfg, st, q, l, c, d, cs) ==
  LET Q == cfg.prms[q]
      parts == [j \in DOMAIN Q.args |->
                  LET p == Q.args[j]
                      v == TrueVal(cfg, st, p, Flat(cfg, p, l, c, d))
                  IN IF Q.ks[j] >= 0 THEN <<Q.ks[j] * v[1], Q.ks[j] * v[2]>>
                     ELSE <<Q.ks[j] * v[2], Q.ks[j] * v[1]>>]
      s == SumI(parts)
      off == Q.w[Flat(cfg, q, l, c, d)] + SumSeq([i \in DOMAIN Q.sco |-> Q.sco[i] * (IF Q.sco[i] = 0 THEN 0 ELSE cs[i])])
  IN IF \E j \in DOMAIN Q.args : Odd(cfg, st, Q.args[j], Flat(cfg, Q.args[j], l, c, d)) # {} THEN AnyOdd
     ELSE <<s[1] + off, s[2] + off>>

Expected(cfg, st, p, l, c, d, cs) ==
  IF IsDeg(cfg, p) THEN Shown(cfg, st, p, Flat(cfg, p, l, c, d), cs)
  ELSE CircVal(cfg, st, p, l, c, d, cs)

(* ------------------------------ machine ---------------------------------- *)
\* st: clock, steps done, dm[p][mech][device] damage, gen[p][device] counts the
\* stress steps that may have changed the device, seen: exact values observed
InitState(cfg) ==
  [ clock |-> cfg.elapsed, n |-> 0, nrows |-> 0, strs |-> 0,
    dm  |-> [p \in DOMAIN cfg.prms |->
               IF ~IsDeg(cfg, p) THEN <<>>
               ELSE [j \in DOMAIN cfg.prms[p].mechs |-> [k \in 1..NFlat(cfg, p) |-> <<0, 0>>]]],
    gen |-> [p \in DOMAIN cfg.prms |-> [k \in 1..NFlat(cfg, p) |-> 0]],
    seen |-> <<>> ]

MechUnit(cfg, p, j) == EffUnit(cfg.prms[p].mechs[j].unit, cfg.prms[p].unit, cfg.unit)

\* CS(p, k): the conditions that device k of parameter p actually sees, which may vary around the step's own
StressStep(cfg, st, CS(_, _), dur) ==
  LET ticks == [p \in DOMAIN cfg.prms |->
                  IF ~IsDeg(cfg, p) THEN <<>>
                  ELSE [j \in DOMAIN cfg.prms[p].mechs |->
                          TTicks(dur, MechUnit(cfg, p, j), cfg.prms[p].mechs[j].pw)]]
  IN [st EXCEPT
        !.clock = TAdd(st.clock, dur), !.n = st.n + 1, !.strs = st.strs + 1,
        !.dm = [p \in DOMAIN cfg.prms |->
                  IF ~IsDeg(cfg, p) THEN <<>>
                  ELSE [j \in DOMAIN cfg.prms[p].mechs |->
                          LET m == cfg.prms[p].mechs[j]
                          IN [k \in 1..NFlat(cfg, p) |->
                                FlowI(m, CS(p, k), k, st.dm[p][j][k], ticks[p][j], cfg.tol)]]],
        !.gen = [p \in DOMAIN cfg.prms |->
                  IF ~IsDeg(cfg, p) THEN st.gen[p]
                  ELSE [k \in 1..NFlat(cfg, p) |->
                          IF \A j \in DOMAIN cfg.prms[p].mechs :
                               LET m == cfg.prms[p].mechs[j]
                               IN Frozen(m, CS(p, k), k, st.dm[p][j][k], ticks[p][j])
                          THEN st.gen[p][k] ELSE st.gen[p][k] + 1]] ]

\* a measurement changes nothing about the devices and takes no time
MeasStep(cfg, st, nrows, seen) ==
  [st EXCEPT !.n = st.n + 1, !.nrows = st.nrows + nrows, !.seen = seen]

\* labels reported by a measurement: counts[p] = 0 when p is not measured
Labels(cfg, counts) ==
  UNION { {<<p, l, c, d>> : l \in 0..(cfg.lots - 1), c \in 0..(cfg.chps - 1), d \in 0..(counts[p] - 1)}
          : p \in {q \in DOMAIN cfg.prms : counts[q] > 0} }
RowsDue(cfg, counts, sens) ==
  SumSeq([p \in DOMAIN counts |-> counts[p] * cfg.lots * cfg.chps]) + SumSeq(sens)
=============================================================================
