SPECIFICATION MCSpec
CONSTANT MaxOps = 7
INVARIANTS Figures Order Untouched
PROPERTY OffRecordsNothing
CHECK_DEADLOCK FALSE
