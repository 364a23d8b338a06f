-------------------------------- MODULE Instr -------------------------------
(* Measurement instruments on decimal integers: error, then significant      *)
(* figures, then range.  Special values are kept apart from numbers.         *)
EXTENDS Base
Nan == 2000000001
PInf == 2000000002
NInf == -2000000002
IsNum(v) == v \notin {Nan, PInf, NInf}

RECURSIVE NDigits(_)
NDigits(v) == IF v < 10 THEN 1 ELSE 1 + NDigits(v \div 10)
RECURSIVE Pow10(_)
Pow10(n) == IF n <= 0 THEN 1 ELSE 10 * Pow10(n - 1)
\* nearest value with p significant figures; the driver avoids exact ties
SigFigs(v, p) ==
  IF v = 0 THEN 0
  ELSE LET a == AbsI(v)
           q == Pow10(NDigits(a) - p)
           r == ((a + q \div 2) \div q) * q
       IN IF v < 0 THEN -r ELSE r
\* the same for numbers of up to twelve digits, in two parts of six digits; sum of a part and a carry
SigFigs2(v, p) ==
  LET d == IF v.hi = 0 THEN NDigits(v.lo) ELSE 6 + NDigits(v.hi)
      m == Pow10(6)
      k == d - p
  IN IF k <= 0 THEN v
     ELSE IF k <= 6
     THEN LET q == Pow10(k)
              r == ((v.lo + q \div 2) \div q) * q
          IN [hi |-> v.hi + r \div m, lo |-> r % m]
     ELSE LET q == Pow10(k - 6)
              up == 2 * (v.hi % q) >= q       \* no exact ties, so the lower part decides only for q = 1
          IN [hi |-> (v.hi \div q) * q + (IF q = 1 THEN (IF 2 * v.lo >= m THEN 1 ELSE 0) ELSE IF up THEN q ELSE 0), lo |-> 0]
Clamp(v, lo, hi) == Max2(Min2(v, hi), lo)

\* an instrument is [err, prec, lims]: err says whether there is an error at all, prec 0 none, lims <<>> none
Measure(ins, v, e) ==
  IF v = Nan THEN Nan
  ELSE LET s == IF IsNum(v) THEN (IF ins.err THEN v + e ELSE v) ELSE v
           r == IF IsNum(s) /\ ins.prec > 0 THEN SigFigs(s, ins.prec) ELSE s
       IN IF ins.lims = <<>> THEN r ELSE Clamp(r, ins.lims[1], ins.lims[2])
=============================================================================
