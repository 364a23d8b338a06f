------------------------------- MODULE Layers -------------------------------
(* Layered variation: latent variables (lot / chip / device) and             *)
(* environmental conditions (batch / chip / device).                         *)
(* A configuration is [type, base, lot, chp, dev]; base 0 means none, a      *)
(* layer holds the identity of its distribution, 0 means not declared.       *)
(* A sampled value is observed as a digit vector <<base, lot, chp, dev>>     *)
(* naming the draws that it is combined from; draw k of distribution d is    *)
(* the digit d * 1000 + k, and 0 means that no draw takes part.              *)
EXTENDS Base

Types == {"scaling", "offset"}
DistOf(x) == x \div 1000
Valid(cfg) == cfg.base # 0 \/ cfg.dev # 0
\* base 9 is the declared value zero: scaled it stays zero whatever the layers draw, as an offset it adds nothing
Zero == 9
Eff(cfg) == CASE cfg.base # Zero -> cfg
              [] cfg.base = Zero /\ cfg.type = "scaling" -> [cfg EXCEPT !.lot = 0, !.chp = 0, !.dev = 0]
              [] OTHER -> [cfg EXCEPT !.base = 0]

\* ---- reconfiguration (abstract): just the attribute changes ----
SetLayer(cfg, layer, d) == [cfg EXCEPT ![layer] = d]
SetType(cfg, t) == IF t \in Types THEN [cfg EXCEPT !.type = t] ELSE cfg
SetBase(cfg, b) == [cfg EXCEPT !.base = b]
TypeVerdict(t) == IF t \in Types THEN "ok" ELSE "InvalidTypeError"

\* ---- what a sample of size L x C x D may look like; a[l][c][d] is a digit vector ----
ShapeOk(a, L, C, D) == /\ Len(a) = L /\ \A l \in 1..L : Len(a[l]) = C /\ \A c \in 1..C : Len(a[l][c]) = D
Cells(L, C, D) == (1..L) \X (1..C) \X (1..D)
Digits(a, S, k) == {a[x[1]][x[2]][x[3]][k] : x \in S}
Single(s) == Cardinality(s) <= 1
\* every digit of the layer comes from the declared distribution, or there is none
From(a, S, k, d) == \A x \in S : IF d = 0 THEN a[x[1]][x[2]][x[3]][k] = 0 ELSE DistOf(a[x[1]][x[2]][x[3]][k]) = d
BaseOk(a, S, b) == \A x \in S : a[x[1]][x[2]][x[3]][1] = b
PerLot(a, S, L, d) ==
  /\ \A l \in 1..L : Single(Digits(a, {x \in S : x[1] = l}, 2))
  /\ d = 0 \/ Cardinality(Digits(a, S, 2)) = L
PerChip(a, S, L, C, d) ==
  /\ \A l \in 1..L, c \in 1..C : Single(Digits(a, {x \in S : x[1] = l /\ x[2] = c}, 3))
  /\ d = 0 \/ Cardinality(Digits(a, S, 3)) = L * C
PerDev(a, S, d) == d = 0 \/ Cardinality(Digits(a, S, 4)) = Cardinality(S)
\* the names of the failing clauses
LatentFails(c0, a, L, C, D) ==
  LET cfg == Eff(c0) IN
  IF ~ShapeOk(a, L, C, D) THEN {"lay.shape"}
  ELSE LET S == Cells(L, C, D)
           F(b, n) == IF b THEN {} ELSE {n}
       IN F(BaseOk(a, S, cfg.base), "lay.base")
          \cup F(From(a, S, 2, cfg.lot), "lay.lotdist") \cup F(From(a, S, 3, cfg.chp), "lay.chpdist") \cup F(From(a, S, 4, cfg.dev), "lay.devdist")
          \cup F(PerLot(a, S, L, cfg.lot), "lay.lot") \cup F(PerChip(a, S, L, C, cfg.chp), "lay.chp") \cup F(PerDev(a, S, cfg.dev), "lay.dev")
\* an environmental condition has one batch draw for everything instead of lot draws
EnvFails(c0, a, L, C, D) ==
  LET cfg == Eff(c0) IN
  IF ~ShapeOk(a, L, C, D) THEN {"lay.shape"}
  ELSE LET S == Cells(L, C, D)
           F(b, n) == IF b THEN {} ELSE {n}
       IN F(BaseOk(a, S, cfg.base), "lay.base")
          \cup F(From(a, S, 2, cfg.lot), "lay.batchdist") \cup F(From(a, S, 3, cfg.chp), "lay.chpdist") \cup F(From(a, S, 4, cfg.dev), "lay.devdist")
          \cup F(Single(Digits(a, S, 2)), "lay.batch") \cup F(PerChip(a, S, L, C, cfg.chp), "lay.chp") \cup F(PerDev(a, S, cfg.dev), "lay.dev")
=============================================================================
