-------------------------------- MODULE RvMC --------------------------------
(* Reconfiguration of random variables: a variable reads its parameters when *)
(* it samples, so after any changes it samples like one newly built; and the *)
(* laws that the quantile tables must obey.                                  *)
EXTENDS Rv, Json, IOUtils
MaxOps == atoi(IOEnv.MAXOPS)
VARIABLES v, impl, hist
vars == <<v, impl, hist>>
Start == [kind : {"norm"}, a : {0, 9000}, b : {0, 2000}] \cup [kind : {"gam"}, a : {1, 4}, b : {1500}]
         \cup [kind : {"uni"}, a : {-4000}, b : {1000, -4000}] \cup [kind : {"det"}, a : {0, 2500}, b : {0}]
\* the implementation keeps the constructor's parameters and hands the present ones to a generator per call
Held(x) == [kind |-> x.kind, a |-> x.a, b |-> x.b, gen |-> x.kind]
Sampled == [k \in 1..NQ |-> Quant([kind |-> impl.gen, a |-> impl.a, b |-> impl.b], k)]
Init == v \in Start /\ impl = Held(v) /\ hist = <<[op |-> "new", v |-> v]>>
Room == Len(hist) <= MaxOps
ChA == \E x \in (IF v.kind = "gam" THEN {2, 10} ELSE {-3000, 0}) :
       /\ v.kind # "uni" \/ x <= v.b
       /\ v' = SetPrm(v, "a", x) /\ impl' = [impl EXCEPT !.a = x] /\ hist' = Append(hist, [op |-> "prm", f |-> "a", x |-> x])
ChB == \E x \in {1000, 7000} :
       /\ v.kind # "det" /\ (v.kind # "uni" \/ v.a <= x)
       /\ v' = SetPrm(v, "b", x) /\ impl' = [impl EXCEPT !.b = x] /\ hist' = Append(hist, [op |-> "prm", f |-> "b", x |-> x])
ChC == \E x \in {5000}, op \in {"none", "add", "sub", "dbl"} :
       /\ v.kind = "norm" /\ v' = Centre(v, op, x) /\ impl' = [impl EXCEPT !.a = Apply(op, x, @)]
       /\ hist' = Append(hist, [op |-> "centre", how |-> op, x |-> x])
Next == Room /\ (ChA \/ ChB \/ ChC)
Spec == Init /\ [][Next]_vars
AsNew == impl = Held(v) /\ Sampled = [k \in 1..NQ |-> Quant(v, k)]
Rising == \A k \in 1..(NQ - 1) : Quant(v, k) <= Quant(v, k + 1) /\ (Varies(v) => Quant(v, k) < Quant(v, k + 1))
InSupport == \A k \in 1..NQ : LowOk(v, Quant(v, k)) /\ HighOk(v, Quant(v, k))
Symmetric == v.kind \in {"norm", "uni"} => \A k \in 1..NQ : AbsI(Quant(v, k) + Quant(v, NQ + 1 - k) - 2 * Quant(v, 4)) <= 2
Gen == IF Len(hist) = MaxOps + 1 THEN PrintT("GEN|" \o ToJson(hist)) ELSE TRUE
=============================================================================
