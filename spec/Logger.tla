------------------------------- MODULE Logger -------------------------------
(* The package logger: at most one stream and one file handler, each         *)
(* replaced by the last one configured; other handlers are left alone.       *)
EXTENDS Base
\* state: [stream, file, level, other]; 0 means none; level as python number
\* request: [stream, file, haslevel, level]
Configure(s, r) == [s EXCEPT !.stream = IF r.stream # 0 THEN r.stream ELSE @,
                             !.file = IF r.file # 0 THEN r.file ELSE @,
                             !.level = IF r.haslevel THEN r.level ELSE @]
Handlers(s) == ({s.stream, s.file} \ {0}) \cup s.other
\* level 0 defers to the parents of the logger; a message of the highest level is always let through up to level 50
\* own[h]: the level that handler h has of its own, which no configuration changes
Receives(s, lv, own) == IF lv >= s.level THEN {h \in Handlers(s) : lv >= own[h]} ELSE {}
=============================================================================
