--------------------------------- MODULE Cbi --------------------------------
(* Exporting a latent variable for inference.  A configuration is            *)
(* [type, base, dev, chp, lot]; base is <<>> or <<thousandths>>; a layer is  *)
(* <<>> or [kind, a, b] with parameters in thousandths.                      *)
EXTENDS Base
Op(t, x, y) == IF t = "scaling" THEN (x * y) \div 1000 ELSE x + y
Kinds == {"normal", "gamma", "uniform"}
Declared(c) == {n \in {"dev", "chp", "lot"} : c[n] # <<>>}
\* the device layer is centred on the combination of the base value and its own centre
Site(c, n) == IF n = "dev" /\ c.base # <<>> /\ c.base # <<0>>
              THEN [c.dev EXCEPT !.a = Op(c.type, c.base[1], c.dev.a)] ELSE c[n]
Sites(c) == {<<n, Site(c, n)>> : n \in Declared(c)}
Frameworks == {"pymc", "pyro"}
\* allowed outcomes of an export request
Verdicts(c, fw, context) ==
  (IF c.dev = <<>> THEN {"UserConfigError"} ELSE {})
  \cup (IF fw \notin Frameworks THEN {"NotImplementedError"} ELSE {})
  \cup (IF c.dev # <<>> /\ c.base # <<>> /\ c.base # <<0>> /\ c.dev.kind # "normal" THEN {"NotImplementedError"} ELSE {})
  \cup (IF fw = "pymc" /\ ~context THEN {"TypeError"} ELSE {})
Outcome(c, fw, context) == IF Verdicts(c, fw, context) = {} THEN {"ok"} ELSE Verdicts(c, fw, context)
\* the value of the exported variable for given values of its layers
Value(c, vals) == LET v(n) == IF c[n] = <<>> THEN (IF c.type = "scaling" THEN 1000 ELSE 0) ELSE vals[n]
                  IN Op(c.type, Op(c.type, v("dev"), v("chp")), v("lot"))
=============================================================================
