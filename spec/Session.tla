------------------------------- MODULE Session ------------------------------
(* A session: one device model, a prepared initial state and environments    *)
(* that are reused for any number of simulations of any plans.               *)
(*                                                                           *)
(* A request is [plan, env, state, setup]; a plan is a sequence of steps     *)
(* (indices into a table of stress and measurement steps).  What a request   *)
(* produces is a function of the request alone, and what a single device     *)
(* shows is a function of the stress applied before and of the measurement   *)
(* conditions alone: measurements leave no trace.                            *)
EXTENDS Base
\* stress part of the first n steps of a plan
StressPrefix(tab, plan, n) == SelectSeq(SubSeq(plan, 1, n), LAMBDA x : tab[x].op = "stress")
\* what determines a value shown at step n (from 1) for a device
Key(tab, plan, n, label, env) == <<label, StressPrefix(tab, plan, n), tab[plan[n]].conds, env>>
=============================================================================
