------------------------------ MODULE LayersMC ------------------------------
(* How a variable with placeholder distributions for undeclared layers (the  *)
(* neutral element of its operation) refines the abstract configuration: in  *)
(* every reachable state it samples what a newly built one would.            *)
EXTENDS Layers, Json, IOUtils
MaxOps == atoi(IOEnv.MAXOPS)
Dists == {1, 2}
Bases == {0, 3, Zero}
BaseVal(b) == IF b = Zero THEN 0 ELSE b
LayerNames == {"lot", "chp", "dev"}
VARIABLES cfg,     \* abstract configuration
          impl,    \* [op, unit, base, lot, chp, dev]: layer is [def, val]
          hist
vars == <<cfg, impl, hist>>
Val(layer, d) == CASE layer = "lot" -> 7 * d [] layer = "chp" -> 11 * d [] layer = "dev" -> 13 * d
Unit(t) == IF t = "scaling" THEN 1 ELSE 0
Op(t, a, b) == IF t = "scaling" THEN a * b ELSE a + b
\* abstract sample: only what is declared takes part
Layered(c) == LET v(l) == IF c[l] = 0 THEN Unit(c.type) ELSE Val(l, c[l])
              IN Op(c.type, Op(c.type, Op(c.type, IF c.base = 0 THEN Unit(c.type) ELSE BaseVal(c.base), v("dev")), v("chp")), v("lot"))
\* implementation: stored placeholder values, refreshed on a change of type
Slot(l, d, u) == IF d = 0 THEN [def |-> FALSE, val |-> u] ELSE [def |-> TRUE, val |-> Val(l, d)]
ImplOf(c) == [type |-> c.type, base |-> c.base, lot |-> Slot("lot", c.lot, Unit(c.type)),
              chp |-> Slot("chp", c.chp, Unit(c.type)), dev |-> Slot("dev", c.dev, Unit(c.type))]
ImplSample == LET t == impl.type
                  v == IF impl.base = 0 THEN impl.dev.val ELSE Op(t, BaseVal(impl.base), impl.dev.val)
              IN Op(t, Op(t, v, impl.chp.val), impl.lot.val)
ImplLayer(l, d) == [impl EXCEPT ![l] = Slot(l, d, Unit(impl.type))]
Refresh(s, u) == IF s.def THEN s ELSE [s EXCEPT !.val = u]
ImplType(t) == IF t \notin Types THEN impl
               ELSE [impl EXCEPT !.type = t, !.lot = Refresh(@, Unit(t)), !.chp = Refresh(@, Unit(t)), !.dev = Refresh(@, Unit(t))]
Start == {c \in [type : Types, base : Bases, lot : {0, 1}, chp : {0, 1}, dev : {0, 1}] : Valid(c)}
Init == cfg \in Start /\ impl = ImplOf(cfg) /\ hist = <<[op |-> "new", cfg |-> cfg]>>
Room == Len(hist) <= MaxOps
ChLayer == \E l \in LayerNames, d \in Dists \cup {0} :
   /\ cfg' = SetLayer(cfg, l, d) /\ Valid(cfg')
   /\ impl' = ImplLayer(l, d) /\ hist' = Append(hist, [op |-> "layer", layer |-> l, d |-> d])
ChType == \E t \in Types \cup {"bogus"} :
   cfg' = SetType(cfg, t) /\ impl' = ImplType(t) /\ hist' = Append(hist, [op |-> "type", t |-> t])
ChBase == \E b \in Bases :
   cfg' = SetBase(cfg, b) /\ Valid(cfg') /\ impl' = [impl EXCEPT !.base = b] /\ hist' = Append(hist, [op |-> "base", b |-> b])
Next == Room /\ (ChLayer \/ ChType \/ ChBase)
Spec == Init /\ [][Next]_vars
Refines == ImplSample = Layered(cfg)
Effective == Layered(Eff(cfg)) = Layered(cfg)
AsNew == impl = ImplOf(cfg)
Gen == IF Len(hist) = MaxOps + 1 THEN PrintT("GEN|" \o ToJson(hist)) ELSE TRUE
=============================================================================
