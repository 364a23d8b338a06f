SPECIFICATION Spec
INVARIANTS InRange Ideal Fewer Nearest Odd OnlyClamped
CHECK_DEADLOCK FALSE
