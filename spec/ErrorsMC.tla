------------------------------ MODULE ErrorsMC ------------------------------
(* Requests are executed in two phases, the first of which may reject them;  *)
(* only the second changes anything.  A shadow that is never sent the        *)
(* invalid requests stays identical.                                         *)
EXTENDS Errors, TLC, Json, IOUtils
MaxOps == atoi(IOEnv.MAXOPS)
Objs == {"plan", "latent", "env", "report"}
\* invalid requests are addressed to an object as well
Target(k) == CASE k \in {"strs.zero", "strs.unit", "loop.zero", "loop.meas", "loop.empty", "loop.unit", "htol.interval"} -> "plan"
               [] k \in {"latent.type", "latent.none", "latent.deter", "latent.framework", "dist.framework", "mech.unnamed", "prm.unnamed"} -> "latent"
               [] k \in {"env.type", "env.counts", "sim.undefined", "sim.unit", "state.counts"} -> "env"
               [] OTHER -> "report"
VARIABLES main, shadow, pending, hist
vars == <<main, shadow, pending, hist>>
Init == main = [o \in Objs |-> <<>>] /\ shadow = main /\ pending = <<>> /\ hist = <<>>
Ask(k) == pending = <<>> /\ Len(hist) < MaxOps /\ pending' = <<k>> /\ UNCHANGED <<main, shadow, hist>>
Reject == /\ pending # <<>> /\ pending[1] \in Invalid /\ hist' = Append(hist, pending[1]) /\ pending' = <<>>
          /\ UNCHANGED <<main, shadow>>
Do == /\ pending # <<>> /\ pending[1] \in Valid /\ pending' = <<>> /\ hist' = Append(hist, pending[1])
      /\ LET o == Changes[pending[1]]
             up(s) == IF o = "none" THEN s ELSE [s EXCEPT ![o] = Append(@, pending[1])]
         IN main' = up(main) /\ shadow' = up(shadow)
Next == (\E k \in Valid \cup Invalid : Ask(k)) \/ Reject \/ Do
Spec == Init /\ [][Next]_vars
Unaffected == main = shadow
RejectedChangesNothing == [][(pending # <<>> /\ pending[1] \in Invalid) => main' = main]_vars
Known == \A k \in Invalid : Documented(k) # {} /\ Target(k) \in Objs
\* histories worth replaying: at least one rejection that is followed by something valid
Gen == (Len(hist) = MaxOps /\ \E a, b \in DOMAIN hist : a < b /\ hist[a] \in Invalid /\ hist[b] \in Valid) => PrintT("GEN|" \o ToJson(hist))
=============================================================================
