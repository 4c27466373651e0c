SPECIFICATION GSpec
CONSTANT MaxOps = 36
INVARIANT Done
CHECK_DEADLOCK FALSE
