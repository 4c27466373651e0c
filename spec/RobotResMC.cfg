SPECIFICATION MCSpec
CONSTANT Depth = 7
INVARIANTS Current Assembled Picks Turns
CHECK_DEADLOCK FALSE
