SPECIFICATION Spec
INVARIANTS Bracketed BestSoFar Inside Precise CanProceed
CHECK_DEADLOCK FALSE
