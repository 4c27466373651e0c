SPECIFICATION GSpec
CONSTANT MaxOps = 28
INVARIANT Done
CHECK_DEADLOCK FALSE
