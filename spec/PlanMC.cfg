SPECIFICATION Spec
CONSTRAINT Gen
PROPERTIES OnlyGrows LoopExact RejectKeeps SamplesMonotone
CHECK_DEADLOCK FALSE
