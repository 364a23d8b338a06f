------------------------------- MODULE Report -------------------------------
(* Reports: content that never changes, and the form in which times are held *)
(* ("span" for time spans, otherwise the unit in which they are numbers).    *)
EXTENDS Base
\* content: [name, desc, rows, times, srows, stimes]; times are spans <<d, s, us>>
Converted(form, alias) == IF UnitOf(alias) = "invalid" THEN form ELSE UnitOf(alias)
ConvertVerdict(alias) == IF UnitOf(alias) = "invalid" THEN "UserConfigError" ELSE "ok"
\* the unit of an exported file is the requested one; without a request any unit will do, as the file names it
FileUnit(form, asked, alias) == IF asked THEN UnitOf(alias) ELSE "hours"
=============================================================================
