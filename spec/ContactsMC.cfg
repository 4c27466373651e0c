SPECIFICATION MCSpec
CONSTANT Depth = 4
INVARIANTS Counters Sorted Blocks Work
CHECK_DEADLOCK FALSE
