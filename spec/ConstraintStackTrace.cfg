SPECIFICATION TraceSpec
CONSTANTS Names = {"a", "b", "c", "d"}
INVARIANTS Counters Partition Range
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
