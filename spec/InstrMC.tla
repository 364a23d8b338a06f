------------------------------ MODULE InstrMC -------------------------------
(* Exhaustive over a small range: the laws that the composition obeys, and   *)
(* that the order of the stages matters (the other orders are different).    *)
EXTENDS Instr
Range == -1200..1200
Inss == [err : BOOLEAN, prec : 0..3, lims : {<<>>, <<-333, 444>>, <<0, 1000>>, <<-2000, 57>>}]
VARIABLES v, ins, e
Tie(x, p) == LET a == AbsI(x) q == Pow10(NDigits(a) - p) IN q > 1 /\ (a % q) * 2 = q
Init == v \in Range /\ ins \in Inss /\ e \in {-7, 0, 12} /\ (ins.prec = 0 \/ ~Tie(IF ins.err THEN v + e ELSE v, ins.prec))
Next == UNCHANGED <<v, ins, e>>
Spec == Init /\ [][Next]_<<v, ins, e>>
M == Measure(ins, v, e)
True == IF ins.err THEN v + e ELSE v
InRange == ins.lims = <<>> \/ (ins.lims[1] <= M /\ M <= ins.lims[2])
Ideal == ~ins.err /\ ins.prec = 0 /\ ins.lims = <<>> => M = v
Fewer == ins.prec > 0 /\ ins.lims = <<>> => M % Pow10(NDigits(AbsI(True)) - ins.prec) = 0
Nearest == ins.prec > 0 /\ ins.lims = <<>> => 2 * AbsI(M - True) <= Pow10(NDigits(AbsI(True)) - ins.prec)
Odd == ins.lims = <<>> => Measure([ins EXCEPT !.err = FALSE], -True, 0) = -M
OnlyClamped == ins.lims # <<>> /\ True > ins.lims[1] + 1000 /\ True < ins.lims[2] - 1000 => M = Measure([ins EXCEPT !.lims = <<>>], v, e)
=============================================================================
