SPECIFICATION GSpec
CONSTANT MaxOps = 40
INVARIANT Done
CHECK_DEADLOCK FALSE
