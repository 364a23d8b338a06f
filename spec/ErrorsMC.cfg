SPECIFICATION Spec
INVARIANTS Unaffected Known Gen
PROPERTIES RejectedChangesNothing
CHECK_DEADLOCK FALSE
