SPECIFICATION GSpec
CONSTANT MaxOps = 60
INVARIANT Done
CHECK_DEADLOCK FALSE
