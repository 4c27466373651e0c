SPECIFICATION GSpec
CONSTANT MaxOps = 14
INVARIANT Done
CHECK_DEADLOCK FALSE
