-------------------------------- MODULE Rv ----------------------------------
(* Random variables: a variable is its kind and parameters, all whole        *)
(* numbers of some unit.  What it samples is judged by its quantiles; the    *)
(* tables hold standard quantiles in ten-thousandths, and six standard       *)
(* errors of their estimates from 20000 draws.                               *)
(*   det  : a = value                                                        *)
(*   norm : a = mean, b = standard deviation                                 *)
(*   gam  : a = shape (see Shapes), b = 1/rate                               *)
(*   uni  : a = start, b = stop                                              *)
EXTENDS Base

Kinds == {"det", "norm", "gam", "uni"}
NQ == 7        \* at probabilities .01 .1 .25 .5 .75 .9 .99
NormQ == <<-23263, -12816, -6745, 0, 6745, 12816, 23263>>
NormT == <<1584, 726, 579, 532, 579, 726, 1584>>
UniQ == <<100, 1000, 2500, 5000, 7500, 9000, 9900>>
UniT == <<43, 128, 184, 213, 184, 128, 43>>
Shapes == {1, 2, 4, 6, 10, 18}          \* twice the shape parameter
GamQ(a) == CASE a = 1 -> <<1, 79, 508, 2275, 6617, 13528, 33174>>
             [] a = 2 -> <<101, 1054, 2877, 6931, 13863, 23026, 46052>>
             [] a = 4 -> <<1486, 5318, 9613, 16783, 26926, 38897, 66384>>
             [] a = 6 -> <<4360, 11021, 17273, 26741, 39204, 53223, 84059>>
             [] a = 10 -> <<12791, 24326, 33686, 46709, 62744, 79936, 116046>>
             [] a = 18 -> <<35075, 54325, 68376, 86690, 108024, 129947, 174027>>
GamT(a) == CASE a = 1 -> <<1, 21, 78, 226, 514, 1015, 3760>>
             [] a = 2 -> <<43, 142, 245, 425, 735, 1273, 4222>>
             [] a = 4 -> <<330, 408, 500, 678, 1008, 1601, 4858>>
             [] a = 6 -> <<687, 631, 693, 861, 1206, 1841, 5346>>
             [] a = 10 -> <<1361, 994, 995, 1143, 1511, 2217, 6124>>
             [] a = 18 -> <<2480, 1548, 1446, 1561, 1964, 2778, 7311>>
\* b * t / 10000 within 32 bits, b < 20000, t < 200000
Part(b, t) == LET s == IF t < 0 THEN -1 ELSE 1
                  u == AbsI(t)
              IN s * (((b * (u \div 1000)) \div 10) + ((b * (u % 1000)) \div 10000))
Quant(v, k) == CASE v.kind = "det" -> v.a
                 [] v.kind = "norm" -> v.a + Part(v.b, NormQ[k])
                 [] v.kind = "gam" -> Part(v.b, GamQ(v.a)[k])
                 [] v.kind = "uni" -> v.a + Part(v.b - v.a, UniQ[k])
Slack(v, k) == CASE v.kind = "det" -> 0
                 [] v.kind = "norm" -> Part(v.b, NormT[k]) + 2
                 [] v.kind = "gam" -> Part(v.b, GamT(v.a)[k]) + 2
                 [] v.kind = "uni" -> Part(v.b - v.a, UniT[k]) + 2
Varies(v) == CASE v.kind = "det" -> FALSE [] v.kind = "uni" -> v.b > v.a [] OTHER -> v.b > 0
\* all values lie in the support
LowOk(v, x) == CASE v.kind = "det" -> x = v.a [] v.kind = "gam" -> x >= 0 [] v.kind = "uni" -> x >= v.a [] v.kind = "norm" -> x > v.a - 8 * v.b - 2
HighOk(v, x) == CASE v.kind = "det" -> x = v.a [] v.kind = "uni" -> x <= v.b [] v.kind = "norm" -> x < v.a + 8 * v.b + 2 [] v.kind = "gam" -> TRUE

\* ---- changes of a variable ----
Apply(op, x, c) == CASE op = "none" -> x [] op = "add" -> x + c [] op = "sub" -> x - c [] op = "dbl" -> 2 * c + x
Centre(v, op, x) == [v EXCEPT !.a = Apply(op, x, v.a)]
SetPrm(v, f, x) == [v EXCEPT ![f] = x]
=============================================================================
