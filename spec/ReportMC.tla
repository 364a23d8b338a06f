------------------------------ MODULE ReportMC ------------------------------
(* Reports with numbers: times are kept as span, or as a number in a unit    *)
(* that the report remembers.  Any order of simulations, conversions,        *)
(* exports to new or existing files and loads represents the instants that   *)
(* the test which is concerned produced.                                     *)
EXTENDS Report, Json, IOUtils
MaxOps == atoi(IOEnv.MAXOPS)
Size == [days |-> 24, hours |-> 6, seconds |-> 2]       \* toy sizes of units in ticks
Us == DOMAIN Size
Slots == 1..2
Instant(n) == 48 * n                                    \* of the n-th report
VARIABLES rep, files, made, hist
vars == <<rep, files, made, hist>>
\* rep: [n, num, form]; form is the unit that the report remembers
Ticks(r) == IF r.form = "span" THEN r.num ELSE r.num * Size[r.form]
To(r, u) == [n |-> r.n, num |-> Ticks(r) \div Size[u], form |-> u]
Nothing == [n |-> 0, num |-> 0, form |-> "span"]
New(n) == [n |-> n, num |-> Instant(n), form |-> "span"]
Init == rep = New(1) /\ files = [k \in Slots |-> Nothing] /\ made = 1 /\ hist = <<>>
Simulate == made < 2 /\ made' = made + 1 /\ rep' = New(made + 1) /\ UNCHANGED files /\ hist' = Append(hist, [op |-> "new"])
Convert(u) == rep' = To(rep, u) /\ UNCHANGED <<files, made>> /\ hist' = Append(hist, [op |-> "convert", u |-> u])
Export(u, k) == /\ files' = [files EXCEPT ![k] = To(rep, IF u # "" THEN u ELSE IF rep.form = "span" THEN "hours" ELSE rep.form)]
                /\ UNCHANGED <<rep, made>> /\ hist' = Append(hist, [op |-> "export", u |-> u, k |-> k])
Load(k) == /\ files[k].n > 0 /\ rep' = [n |-> files[k].n, num |-> Ticks(files[k]), form |-> "span"]
           /\ UNCHANGED <<files, made>> /\ hist' = Append(hist, [op |-> "load", k |-> k])
Bad == UNCHANGED <<rep, files, made>> /\ hist' = Append(hist, [op |-> "convert", u |-> "weeks"])
BadExport(k) == UNCHANGED <<rep, files, made>> /\ hist' = Append(hist, [op |-> "export", u |-> "weeks", k |-> k])
Next == /\ Len(hist) < MaxOps
        /\ \/ Simulate \/ (\E u \in Us : Convert(u)) \/ Bad
           \/ (\E k \in Slots : BadExport(k) \/ Load(k) \/ \E u \in Us \cup {""} : Export(u, k))
Spec == Init /\ [][Next]_vars
Same == Ticks(rep) = Instant(rep.n) /\ \A k \in Slots : files[k].n > 0 => Ticks(files[k]) = Instant(files[k].n)
ExportPure == [][hist'[Len(hist')].op = "export" => rep' = rep]_vars
\* a file holds what was last exported to it: only an export to it changes it
FileKept == [][\A k \in Slots : files'[k] # files[k] => LET h == hist'[Len(hist')] IN h.op = "export" /\ h.k = k /\ files'[k].n = rep.n]_vars
Gen == IF Len(hist) = MaxOps THEN PrintT("GEN|" \o ToJson(hist)) ELSE TRUE
=============================================================================
