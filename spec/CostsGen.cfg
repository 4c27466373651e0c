SPECIFICATION GSpec
CONSTANT MaxOps = 30
INVARIANT Done
CHECK_DEADLOCK FALSE
