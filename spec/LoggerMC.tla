------------------------------ MODULE LoggerMC ------------------------------
(* The handler list as it is kept, scanned and edited; it always holds what  *)
(* the abstract state says.                                                  *)
EXTENDS Logger, Json, IOUtils
MaxOps == atoi(IOEnv.MAXOPS)
Reqs == [stream : {0, 1}, file : {0, 1}, haslevel : BOOLEAN, level : {0, 10, 50}]
VARIABLES abs, list, hist
vars == <<abs, list, hist>>
\* handler ids: kind * 100 + number; kind 1 stream, 2 file, 3 other
Kind(h) == h \div 100
Init == /\ abs = [stream |-> 100, file |-> 0, level |-> 10, other |-> {}] /\ list = <<100>> /\ hist = <<>>
Without(s, k) == SelectSeq(s, LAMBDA h : Kind(h) # k)
Step(r) ==
  LET n == Len(hist) + 1
      q == [r EXCEPT !.stream = IF @ = 0 THEN 0 ELSE 100 + n, !.file = IF @ = 0 THEN 0 ELSE 200 + n]
      l1 == IF q.stream # 0 THEN Append(Without(list, 1), q.stream) ELSE list
      l2 == IF q.file # 0 THEN Append(Without(l1, 2), q.file) ELSE l1
  IN abs' = Configure(abs, q) /\ list' = l2 /\ hist' = Append(hist, r)
Next == Len(hist) < MaxOps /\ \E r \in Reqs : (r.haslevel \/ r.level = 0) /\ Step(r)
Spec == Init /\ [][Next]_vars
InSync == {list[k] : k \in DOMAIN list} = Handlers(abs)
OneEach == \A k \in {1, 2} : Cardinality({j \in DOMAIN list : Kind(list[j]) = k}) <= 1
Gen == IF Len(hist) = MaxOps THEN PrintT("GEN|" \o ToJson(hist)) ELSE TRUE
=============================================================================
