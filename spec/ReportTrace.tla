---------------------------- MODULE ReportTrace -----------------------------
(* Recorded conversions, exports and loads of real reports against Report.   *)
EXTENDS Report, TraceBase
\* an observation o of a report or a file against the content of the report; numeric times are decoded
\* by the driver in the unit that is due
Content(o, w, c) ==
  If(o.name = c.name /\ o.desc = c.desc, w \o ".name")
  \cup If(o.rows = c.rows, w \o ".rows")
  \cup If(o.times = c.times, w \o ".times")
  \cup If(o.srows = c.srows, w \o ".summary")
  \cup If(o.stimes = c.stimes, w \o ".stimes")
\* c: contents of all reports made; n: the current one; slot: which one each file holds (0 for none)
Start(e) == st' = [c |-> <<e.o>>, n |-> 1, form |-> "span", slot |-> [k \in 1..4 |-> 0]] /\ Say({}, <<>>)
New(e) == st' = [st EXCEPT !.c = Append(@, e.o), !.n = Len(st.c) + 1, !.form = "span"] /\ Say({}, <<>>)
Now == st.c[st.n]
Convert(e) == LET f == Converted(st.form, e.u)
              IN st' = [st EXCEPT !.form = f] /\
                 Say(Content(e.o, "conv", Now) \cup If(e.res = ConvertVerdict(e.u), "conv.verdict")
                     \cup If(Len(Now.times) = 0 \/ e.res # "ok" \/ ~e.o.spans, "conv.form"), <<f, e.o.times, Now.times>>)
Export(e) == LET u == FileUnit(st.form, e.asked, e.u)
                 v == IF u = "invalid" THEN "UserConfigError" ELSE "ok"
             IN /\ st' = IF v = "ok" THEN [st EXCEPT !.slot[e.k] = st.n] ELSE st
                /\ Say(If(e.res = v, "exp.verdict")
                     \cup Content(e.o, "kept", Now) \cup If(e.same, "kept.form")
                     \cup (IF v # "ok" \/ e.res # "ok" THEN {} ELSE If(IF e.asked THEN UnitOf(e.unit) = u ELSE UnitOf(e.unit) # "invalid", "exp.unit") \cup Content(e.f, "file", Now)), <<u, e.unit>>)
Load(e) == LET m == st.slot[e.k]
           IN /\ st' = IF m > 0 THEN [st EXCEPT !.n = m, !.form = "span"] ELSE st
              /\ Say(IF m = 0 THEN If(e.res = "FileNotFoundError", "load.missing") \cup Content(e.o, "kept", Now)
                     ELSE Content(e.o, "load", st.c[m]) \cup If(e.res = "ok", "load.verdict"), <<m, e.res>>)
Crash(e) == UNCHANGED st /\ Say({"crash"}, e.why)
Init == TInit(LAMBDA c : 0)
Next == TStep /\ LET e == Ev[l] IN CASE e.op = "start" -> Start(e) [] e.op = "new" -> New(e) [] e.op = "convert" -> Convert(e) [] e.op = "export" -> Export(e)
            [] e.op = "load" -> Load(e) [] e.op = "crash" -> Crash(e)
Spec == Init /\ [][Next]_vars
=============================================================================
