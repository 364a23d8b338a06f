SPECIFICATION Spec
CONSTRAINT Witness
INVARIANTS ClockIsSum RowsAddUp SplitIndependent UnitFree Exact CircFollows
PROPERTIES NeverLost IdleKeeps GenSound FailSticks FailForgets MeasPure
CHECK_DEADLOCK FALSE
