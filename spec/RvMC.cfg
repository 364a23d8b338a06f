SPECIFICATION Spec
INVARIANTS AsNew Rising InSupport Symmetric Gen
CHECK_DEADLOCK FALSE
