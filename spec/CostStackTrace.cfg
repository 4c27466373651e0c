SPECIFICATION TraceSpec
CONSTANTS Names = {"a", "b", "c", "d"}
INVARIANTS Counters Partition
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
