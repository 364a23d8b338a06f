----------------------------- MODULE InstrTrace -----------------------------
(* Recorded measurements against Instr.                                      *)
EXTENDS Instr, TraceBase
\* observed numbers are given in thousandths of the unit
Agree(want, got) == IF IsNum(want) THEN IsNum(got) /\ AbsI((got \div 1000) - want) <= 1 /\ AbsI(got - 1000 * want) <= 1 ELSE got = want
\* one call: e.ins, e.vals, e.errs (cyclic, in order), e.got, and flags about the container
Meas(e) ==
  LET n == Len(e.vals)
      want(k) == Measure(e.ins, e.vals[k], e.errs[((e.from + k - 1) % Len(e.errs)) + 1])
      bad_(k) == Len(e.got) = n /\ ~Agree(want(k), e.got[k])
      cl(k) == IF ~IsNum(e.vals[k]) THEN "ins.special"
               ELSE IF Agree(Measure([e.ins EXCEPT !.lims = <<>>], e.vals[k], e.errs[((e.from + k - 1) % Len(e.errs)) + 1]), 1000 * want(k)) THEN "ins.value" ELSE "ins.range"
  IN UNCHANGED st /\
     Say(If(Len(e.got) = n, "ins.count") \cup {cl(k) : k \in {k \in 1..n : bad_(k)}}
         \cup If(e.type, "ins.container") \cup If(e.kept, "ins.input"),
         [k \in {k \in 1..n : bad_(k)} |-> <<e.vals[k], e.errs[((e.from + k - 1) % Len(e.errs)) + 1], want(k), e.got[k]>>])
\* one call with values of many digits: e.prec, e.vals, e.got in two parts, e.exact says that the values observed are such numbers
Fine(e) ==
  LET n == Len(e.vals)
      bad_(k) == Len(e.got) = n /\ SigFigs2(e.vals[k], e.prec) # e.got[k]
  IN UNCHANGED st /\
     Say(If(Len(e.got) = n, "ins.count") \cup If(e.exact /\ \A k \in 1..n : ~bad_(k), "ins.fine"),
         [k \in {k \in 1..n : bad_(k)} |-> <<e.vals[k], SigFigs2(e.vals[k], e.prec), e.got[k]>>])
Crash(e) == UNCHANGED st /\ Say({"crash"}, e.why)
Init == TInit(LAMBDA c : 0)
Next == TStep /\ LET e == Ev[l] IN CASE e.op = "meas" -> Meas(e) [] e.op = "fine" -> Fine(e) [] e.op = "crash" -> Crash(e)
Spec == Init /\ [][Next]_vars
=============================================================================
