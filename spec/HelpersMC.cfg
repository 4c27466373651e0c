SPECIFICATION Spec
CONSTANT MaxPuts = 3
INVARIANTS ReadsBack Unquoted
CHECK_DEADLOCK FALSE
