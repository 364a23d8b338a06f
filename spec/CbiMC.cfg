SPECIFICATION Spec
INVARIANTS SameModel Centred OnePerLayer Allowed Neutral Gen
PROPERTIES Untouched
CHECK_DEADLOCK FALSE
