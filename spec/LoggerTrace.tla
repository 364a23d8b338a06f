---------------------------- MODULE LoggerTrace -----------------------------
EXTENDS Logger, TraceBase
SetOf(s) == {s[k] : k \in DOMAIN s}
Own(e) == [h \in {e.hlv[k][1] : k \in DOMAIN e.hlv} |-> e.hlv[CHOOSE k \in DOMAIN e.hlv : e.hlv[k][1] = h][2]]
Seen(e, s) == If(SetOf(e.handlers) = Handlers(s), "log.handlers")
              \cup If(Len(e.handlers) = Cardinality(SetOf(e.handlers)), "log.once")
              \cup If(e.level = s.level, "log.level")
              \* a test message of level e.msg reaches every installed handler once and no other
              \cup If(s.level = 0 \/ (SetOf(e.recv) = Receives(s, e.msg, Own(e)) /\ Len(e.recv) = Cardinality(SetOf(e.recv))), "log.output")
Start(e) == st' = [stream |-> e.stream, file |-> e.file, level |-> e.level, other |-> SetOf(e.other)] /\ Say(Seen(e, st'), <<>>)
Conf(e) == st' = Configure(st, e.r) /\ Say(Seen(e, st') \cup If(e.res = "ok", "log.refused"), <<st, e.r, e.handlers, e.level, e.recv>>)
\* the application adds a handler of its own that is neither of the two kinds
Other(e) == st' = [st EXCEPT !.other = @ \cup {e.id}] /\ Say(Seen(e, st'), <<>>)
Crash(e) == UNCHANGED st /\ Say({"crash"}, e.why)
Init == TInit(LAMBDA c : 0)
Next == TStep /\ LET e == Ev[l] IN CASE e.op = "start" -> Start(e) [] e.op = "conf" -> Conf(e) [] e.op = "other" -> Other(e) [] e.op = "crash" -> Crash(e)
Spec == Init /\ [][Next]_vars
=============================================================================
