------------------------------- MODULE Errors -------------------------------
(* Invalid requests and the errors that are documented for them.             *)
EXTENDS Base
Documented(kind) ==
  CASE kind \in {"strs.zero", "strs.unit", "loop.zero", "loop.meas", "loop.empty", "loop.unit", "latent.none", "mech.unnamed",
                 "prm.unnamed", "state.counts", "env.counts", "latent.deter", "report.unit", "export.unit", "htol.interval", "sim.unit"} -> {"UserConfigError"}
    [] kind \in {"latent.type", "env.type"} -> {"InvalidTypeError"}
    [] kind = "sim.undefined" -> {"MissingParamError"}
    [] kind \in {"latent.framework", "dist.framework"} -> {"NotImplementedError"}
    [] kind = "report.missing" -> {"FileNotFoundError"}
Invalid == {"strs.zero", "strs.unit", "loop.zero", "loop.meas", "loop.empty", "loop.unit", "latent.none", "mech.unnamed",
            "prm.unnamed", "state.counts", "env.counts", "latent.deter", "report.unit", "export.unit", "htol.interval", "sim.unit",
            "latent.type", "env.type", "sim.undefined", "latent.framework", "dist.framework", "report.missing"}
\* valid requests and the kind of object that each of them changes
Changes == [append |-> "plan", loop |-> "plan", relayer |-> "latent", retype |-> "latent", envlayer |-> "env",
            convert |-> "report", simulate |-> "report", export |-> "none", sample |-> "none", state |-> "none"]
Valid == DOMAIN Changes
=============================================================================
