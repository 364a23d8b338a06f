SPECIFICATION Spec
INVARIANTS Reproducible NoTrace Gen
PROPERTIES Kept
CHECK_DEADLOCK FALSE
