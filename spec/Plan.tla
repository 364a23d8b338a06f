-------------------------------- MODULE Plan --------------------------------
(* Test plans: what appending, looping, iterating and counting mean.         *)
(* A step is [k |-> "s", dur |-> span] or [k |-> "m", counts |-> <<..>>].    *)
EXTENDS Base

GroupTime(lib, g) == TSum([j \in DOMAIN g |-> IF lib[g[j]].k = "s" THEN lib[g[j]].dur ELSE TZero])
RECURSIVE Repeat(_, _)
Repeat(g, n) == IF n = 0 THEN <<>> ELSE Repeat(g, n - 1) \o g

\* repeat the whole group until the added stress time reaches the target, and no further
RECURSIVE Fill(_, _, _, _)
Fill(lib, g, t, target) ==
  IF ~TLess(t, target) THEN <<>> ELSE g \o Fill(lib, g, TAdd(t, GroupTime(lib, g)), target)
RECURSIVE FillTime(_, _, _)
FillTime(per, t, target) == IF ~TLess(t, target) THEN t ELSE FillTime(per, TAdd(t, per), target)

LoopVerdict(lib, g, target) ==
  IF target = TZero \/ \A j \in DOMAIN g : lib[g[j]].k = "m" THEN "reject"
  ELSE IF FillTime(GroupTime(lib, g), TZero, target) = target THEN "ok" ELSE "warn"

\* the group alone adds a whole multiple of the requested time
RECURSIVE IsMultiple(_, _, _)
IsMultiple(t, step, sum) == sum = t \/ (TLess(sum, t) /\ IsMultiple(t, step, TAdd(sum, step)))
Multiple(lib, g, target) == IsMultiple(FillTime(GroupTime(lib, g), TZero, target), target, target)

Append_(plan, g) == plan \o g
Loop(lib, plan, g, target) ==
  IF LoopVerdict(lib, g, target) = "reject" THEN plan ELSE plan \o Fill(lib, g, TZero, target)

\* largest number requested of each parameter by any measurement (0: not measured)
Samples(lib, plan, n) ==
  [p \in 1..n |-> MaxSeq([j \in DOMAIN plan |-> IF lib[plan[j]].k = "m" THEN lib[plan[j]].counts[p] ELSE 0], 0)]
=============================================================================
