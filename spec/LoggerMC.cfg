SPECIFICATION Spec
INVARIANTS InSync OneEach Gen
CHECK_DEADLOCK FALSE
