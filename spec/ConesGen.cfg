SPECIFICATION GSpec
CONSTANT MaxOps = 26
INVARIANT Done
CHECK_DEADLOCK FALSE
