------------------------------ MODULE CbiTrace ------------------------------
EXTENDS Cbi, TraceBase
C == Case.vcfg
Close(x, y) == AbsI(x - y) <= 2
SameSite(s, o) == s.kind = o.kind /\ Close(s.a, o.a) /\ Close(s.b, o.b)
\* e.sites: observed [kind, a, b] in any order; e.vals: assignment of values to the layers; e.value: the exported value for it
Export(e) ==
  LET want == Sites(C)
      nobs == Len(e.sites)
      match == /\ nobs = Cardinality(want)
               /\ \A w \in want : \E k \in 1..nobs : SameSite(w[2], e.sites[k])
               /\ \A k \in 1..nobs : \E w \in want : SameSite(w[2], e.sites[k])
  IN UNCHANGED st /\
     Say(IF e.res # "ok" \/ Outcome(C, e.fw, e.context) # {"ok"}
         THEN If(e.res \in Outcome(C, e.fw, e.context), "cbi.verdict")
         ELSE If(match, "cbi.sites") \cup If(e.names = nobs, "cbi.names")
              \cup If(~match \/ ~e.hasval \/ AbsI(e.value - Value(C, e.vals)) <= 2 + AbsI(e.value) \div 100000, "cbi.value"),
         <<want, e.sites, e.res, e.value>>)
\* sampling is that of a twin that was never exported
Sample(e) == UNCHANGED st /\ Say(If(e.same, "cbi.sampling"), <<>>)
Crash(e) == UNCHANGED st /\ Say({"crash"}, e.why)
Init == TInit(LAMBDA c : 0)
Next == TStep /\ LET e == Ev[l] IN CASE e.op = "export" -> Export(e) [] e.op = "sample" -> Sample(e) [] e.op = "crash" -> Crash(e)
Spec == Init /\ [][Next]_vars
=============================================================================
