SPECIFICATION Spec
INVARIANTS Same Gen
PROPERTIES ExportPure FileKept
CHECK_DEADLOCK FALSE
