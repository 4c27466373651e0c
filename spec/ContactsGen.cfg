SPECIFICATION GSpec
CONSTANT MaxOps = 50
INVARIANT Done
CHECK_DEADLOCK FALSE
