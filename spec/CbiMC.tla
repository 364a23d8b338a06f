-------------------------------- MODULE CbiMC -------------------------------
(* Export as a sequence of small steps on a working copy of the one device   *)
(* distribution that sampling uses as well: that distribution never changes, *)
(* the exported model is always that of Cbi, also after exports that fail    *)
(* half way, and repeated exports give the same model.                       *)
EXTENDS Cbi, TLC, Json
L(k, a, b) == [kind |-> k, a |-> a, b |-> b]
Cfgs == [type : {"scaling", "offset"}, base : {<<>>, <<2000>>, <<-3000>>},
         dev : {<<>>, L("normal", 0, 500), L("normal", 3000, 500), L("uniform", 1000, 2000)},
         chp : {<<>>, L("normal", 1000, 100)}, lot : {<<>>, L("gamma", 2000, 4000)}]
Requests == {<<"pymc", TRUE>>, <<"pymc", FALSE>>, <<"pyro", TRUE>>, <<"stan", TRUE>>}
MaxExports == 3
VARIABLES cfg, work, emitted, req, done, models
vars == <<cfg, work, emitted, req, done, models>>
\* work: the working copy of the device distribution, <<>> while at rest; emitted: layers handed over so far
\* done: requests with their outcomes; models: models exported so far
Init == /\ cfg \in {c \in Cfgs : c.base # <<>> \/ c.dev # <<>>}
        /\ work = <<>> /\ emitted = {} /\ req = <<>> /\ done = <<>> /\ models = {}
Reject(r) == /\ req = <<>> /\ Len(done) < MaxExports
             /\ (cfg.dev = <<>> \/ r[1] \notin Frameworks \/ (cfg.base # <<>> /\ cfg.dev # <<>> /\ cfg.dev.kind # "normal"))
             /\ \E o \in Verdicts(cfg, r[1], r[2]) : done' = Append(done, <<r, o>>)
             /\ UNCHANGED <<cfg, work, emitted, req, models>>
Begin(r) == /\ req = <<>> /\ Len(done) < MaxExports /\ Verdicts(cfg, r[1], TRUE) = {}
            /\ req' = r /\ work' = Site(cfg, "dev") /\ emitted' = {}
            /\ UNCHANGED <<cfg, done, models>>
Emit(n) == /\ req # <<>> /\ (req[2] \/ req[1] = "pyro") /\ n \in Declared(cfg) /\ n \notin {x[1] : x \in emitted}
           /\ emitted' = emitted \cup {<<n, IF n = "dev" THEN work ELSE cfg[n]>>}
           /\ UNCHANGED <<cfg, work, req, done, models>>
\* handing over to PyMC outside of a model fails in the middle of the export
Fail == /\ req # <<>> /\ req[1] = "pymc" /\ ~req[2] /\ done' = Append(done, <<req, "TypeError">>) /\ req' = <<>> /\ work' = <<>>
        /\ emitted' = {} /\ UNCHANGED <<cfg, models>>
Finish == /\ req # <<>> /\ {x[1] : x \in emitted} = Declared(cfg) /\ done' = Append(done, <<req, "ok">>) /\ req' = <<>> /\ work' = <<>>
          /\ models' = models \cup {emitted} /\ emitted' = {} /\ UNCHANGED cfg
Next == (\E r \in Requests : Reject(r) \/ Begin(r)) \/ (\E n \in {"dev", "chp", "lot"} : Emit(n)) \/ Fail \/ Finish
Spec == Init /\ [][Next]_vars
Untouched == [][cfg' = cfg]_vars
SameModel == models \subseteq {Sites(cfg)}
Centred == work # <<>> => work.a = (IF cfg.base = <<>> THEN cfg.dev.a ELSE Op(cfg.type, cfg.base[1], cfg.dev.a))
OnePerLayer == Cardinality(Sites(cfg)) = Cardinality(Declared(cfg))
Allowed == \A k \in 1..Len(done) : done[k][2] \in Outcome(cfg, done[k][1][1], done[k][1][2])
Neutral == Declared(cfg) = {"dev"} => Value(cfg, [x \in {"dev", "chp", "lot"} |-> 7000]) = 7000
Gen == Len(done) = MaxExports => PrintT("GEN|" \o ToJson(<<cfg, [k \in 1..Len(done) |-> done[k][1]]>>))
=============================================================================
