------------------------------- MODULE Solver -------------------------------
(* Bracketing minimisation of a strictly unimodal function, for several      *)
(* independent problems in lock step.                                        *)
EXTENDS Base
\* one problem: bracket [a, b] and best point x; a query at u with value fu against the best value fx
Update(s, u, fu) ==
  IF fu <= s.fx THEN [a |-> IF u >= s.x THEN s.x ELSE s.a, b |-> IF u < s.x THEN s.x ELSE s.b, x |-> u, fx |-> fu]
  ELSE [s EXCEPT !.a = IF u < s.x THEN u ELSE s.a, !.b = IF u >= s.x THEN u ELSE s.b]
Converged(s, tol) == Max2(s.x - s.a, s.b - s.x) <= tol
\* requirements on what can be observed: the queries, their values as ranks, and the answer
InBounds(qs, lo, hi) == \A k \in DOMAIN qs : lo <= qs[k][1] /\ qs[k][1] <= hi
Best(qs, ret) == \A k \in DOMAIN qs : ret[2] <= qs[k][2]
=============================================================================
