SPECIFICATION Spec
INVARIANTS Refines
  Effective AsNew Gen
CHECK_DEADLOCK FALSE
