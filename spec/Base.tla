-------------------------------- MODULE Base --------------------------------
(* Shared helpers: integer arithmetic, exact time spans (TLC integers are    *)
(* 32-bit, so spans are <<days, seconds, microseconds>> triples and unit     *)
(* conversion goes through little-endian base-10^4 limbs).                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
AbsI(a) == IF a < 0 THEN -a ELSE a
CeilDiv(a, b) == -((-a) \div b)
InSeq(x, s) == \E i \in DOMAIN s : s[i] = x

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE SumTo(s, n - 1) + s[n]
SumSeq(s) == SumTo(s, Len(s))
RECURSIVE MaxTo(_, _)
MaxTo(s, n) == IF n = 1 THEN s[1] ELSE Max2(MaxTo(s, n - 1), s[n])
MaxSeq(s, default) == IF Len(s) = 0 THEN default ELSE MaxTo(s, Len(s))

(* Integer square root, floor, for 0 <= n < 2^31 *)
RECURSIVE ISq(_, _, _)
ISq(n, lo, hi) ==                       \* invariant lo*lo <= n < (hi+1)*(hi+1)
  IF lo >= hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF m * m <= n THEN ISq(n, m, hi) ELSE ISq(n, lo, m - 1)
ISqrt(n) == IF n <= 0 THEN 0 ELSE ISq(n, 1, 46340)

(* ---- time spans <<d, s, us>>, normalised like datetime.timedelta ---- *)
TZero == <<0, 0, 0>>
TNorm(d, s, u) ==
  LET s1 == s + (u \div 1000000)
  IN <<d + (s1 \div 86400), s1 % 86400, u % 1000000>>
TAdd(a, b) == TNorm(a[1] + b[1], a[2] + b[2], a[3] + b[3])
TSub(a, b) == TNorm(a[1] - b[1], a[2] - b[2], a[3] - b[3])
TLess(a, b) == \/ a[1] < b[1]
               \/ a[1] = b[1] /\ a[2] < b[2]
               \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
TLeq(a, b) == a = b \/ TLess(a, b)
RECURSIVE TSumTo(_, _)
TSumTo(s, n) == IF n = 0 THEN TZero ELSE TAdd(TSumTo(s, n - 1), s[n])
TSum(s) == TSumTo(s, Len(s))
RECURSIVE TMul(_, _)
TMul(t, n) == IF n = 0 THEN TZero
              ELSE IF n % 2 = 0 THEN LET h == TMul(t, n \div 2) IN TAdd(h, h)
              ELSE TAdd(t, TMul(t, n - 1))
TNonNeg(a) == a[1] >= 0

(* ---- naturals as little-endian limbs base 10^4 ---- *)
LB == 10000
RECURSIVE BNorm(_, _)
BNorm(x, carry) ==
  IF x = <<>> THEN (IF carry = 0 THEN <<>> ELSE <<carry % LB>> \o BNorm(<<>>, carry \div LB))
  ELSE LET h == Head(x) + carry IN <<h % LB>> \o BNorm(Tail(x), h \div LB)
BOf(n) == BNorm(<<n>>, 0)
RECURSIVE BAddR(_, _)
BAddR(x, y) == IF x = <<>> THEN y ELSE IF y = <<>> THEN x
               ELSE <<Head(x) + Head(y)>> \o BAddR(Tail(x), Tail(y))
BAdd(x, y) == BNorm(BAddR(x, y), 0)
BMul(x, k) == BNorm([i \in DOMAIN x |-> x[i] * k], 0)          \* k < 2*10^5
BDivR(x, k) ==                                                  \* floor(x / k), k < 2*10^5
  LET n == Len(x)
      RECURSIVE go(_, _)
      go(i, rem) == IF i = 0 THEN <<>>
                    ELSE LET cur == rem * LB + x[i] IN go(i - 1, cur % k) \o <<cur \div k>>
  IN go(n, 0)
RECURSIVE BDivs(_, _)
BDivs(x, ks) == IF ks = <<>> THEN x ELSE BDivs(BDivR(x, Head(ks)), Tail(ks))
BigCap == 2000000000
RECURSIVE BToIntR(_, _)
BToIntR(x, n) == IF n = 0 THEN 0
                 ELSE LET hi == BToIntR(x, n - 1)
                      IN IF hi > 199999 THEN BigCap ELSE hi * LB + x[Len(x) - n + 1]
BToInt(x) == BToIntR(x, Len(x))
\* BToIntR walks from the most significant limb
TMicros(t) ==                                                    \* t >= 0
  BAdd(BMul(BMul(BMul(BOf(t[1]), 8640), 1000), 10000),          \* d * 86400 * 10^6
       BAdd(BMul(BMul(BOf(t[2]), 1000), 1000), BOf(t[3])))

(* ---- time units ---- *)
Units == {"days", "hours", "seconds", "milliseconds", "microseconds"}
UnitOf(alias) ==
  CASE alias \in {"days", "d"} -> "days"
    [] alias \in {"hours", "h", ""} -> "hours"
    [] alias \in {"seconds", "s"} -> "seconds"
    [] alias \in {"milliseconds", "ms"} -> "milliseconds"
    [] alias \in {"microseconds", "us"} -> "microseconds"
    [] OTHER -> "invalid"
UnitDivs(u) == CASE u = "days" -> <<8640, 10000, 1000>>
                 [] u = "hours" -> <<3600, 10000, 100>>
                 [] u = "seconds" -> <<10000, 100>>
                 [] u = "milliseconds" -> <<1000>>
                 [] u = "microseconds" -> <<>>
UnitSpan(u) == CASE u = "days" -> <<1, 0, 0>>
                 [] u = "hours" -> <<0, 3600, 0>>
                 [] u = "seconds" -> <<0, 1, 0>>
                 [] u = "milliseconds" -> <<0, 0, 1000>>
                 [] u = "microseconds" -> <<0, 0, 1>>
RECURSIVE Pow10Divs(_)
Pow10Divs(p) == IF p = 0 THEN <<>> ELSE IF p >= 4 THEN <<10000>> \o Pow10Divs(p - 4)
                ELSE <<10>> \o Pow10Divs(p - 1)
RECURSIVE BMuls(_, _)
BMuls(x, ks) == IF ks = <<>> THEN x ELSE BMuls(BMul(x, Head(ks)), Tail(ks))
\* floor(1000 * t / (unit * 10^p)), saturating at BigCap; p may be negative for durations well below the unit
TTicks(t, unit, p) ==
  BToInt(BDivs(BMuls(BMul(TMicros(t), 1000), IF p < 0 THEN Pow10Divs(-p) ELSE <<>>),
               UnitDivs(unit) \o (IF p > 0 THEN Pow10Divs(p) ELSE <<>>)))
\* declared precedence: mechanism, then parameter, then device, then hours
EffUnit(mech, prm, dev) == UnitOf(IF mech # "" THEN mech ELSE IF prm # "" THEN prm ELSE dev)
=============================================================================
