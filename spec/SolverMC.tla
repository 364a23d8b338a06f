------------------------------ MODULE SolverMC ------------------------------
(* All ways of choosing query points on a grid, two problems in lock step:   *)
(* whatever the interpolation proposes, the minimum stays bracketed, the     *)
(* answer is the best point queried, queries stay within the bounds, and at  *)
(* the end every problem's answer is within the tolerance, whatever the      *)
(* other one is.                                                             *)
EXTENDS Solver, TLC, IOUtils
N == atoi(IOEnv.GRID)
Tol == 1
Probs == 1..2
\* strictly unimodal functions: steeper on the left, on the right, or the same with ties broken
Fn(shape, m, x) == CASE shape = "left" -> IF x < m THEN 3 * (m - x) ELSE x - m
                     [] shape = "right" -> IF x > m THEN 3 * (x - m) ELSE m - x
                     [] shape = "even" -> 2 * AbsI(x - m)
VARIABLES prob, s, asked, n
vars == <<prob, s, asked, n>>
F(k, x) == Fn(prob[k].shape, prob[k].m, x)
X0 == (382 * N) \div 1000
Init == /\ prob \in [Probs -> [shape : {"left", "right", "even"}, m : 0..N]]
        /\ s = [k \in Probs |-> [a |-> 0, b |-> N, x |-> X0, fx |-> F(k, X0)]]
        /\ asked = [k \in Probs |-> {X0}] /\ n = 0
\* points the search may propose: inside the bracket, or a minimal step away from the best point, into the larger part
Points(t) == ({u \in (t.a + 1)..(t.b - 1) : u # t.x} \cup {IF 2 * t.x < t.a + t.b THEN t.x + Tol ELSE t.x - Tol}) \cap 0..N
Step == /\ \E k \in Probs : ~Converged(s[k], Tol)
        /\ \E u1 \in Points(s[1]), u2 \in Points(s[2]) :
             LET u == <<u1, u2>>
             IN /\ s' = [k \in Probs |-> Update(s[k], u[k], F(k, u[k]))]
                /\ asked' = [k \in Probs |-> asked[k] \cup {u[k]}]
        /\ n' = Min2(n + 1, 1) /\ UNCHANGED prob
Spec == Init /\ [][Step]_vars
Bracketed == \A k \in Probs : s[k].a <= prob[k].m /\ prob[k].m <= s[k].b
BestSoFar == \A k \in Probs : \A u \in asked[k] : F(k, s[k].x) <= F(k, u)
Inside == \A k \in Probs : asked[k] \subseteq 0..N
Precise == (\A k \in Probs : Converged(s[k], Tol)) => \A k \in Probs : AbsI(s[k].x - prob[k].m) <= Tol
CanProceed == (\E k \in Probs : ~Converged(s[k], Tol)) => \A k \in Probs : Points(s[k]) # {}
=============================================================================
