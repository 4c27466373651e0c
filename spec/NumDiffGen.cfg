SPECIFICATION GSpec
CONSTANT MaxOps = 20
INVARIANT Done
CHECK_DEADLOCK FALSE
