SPECIFICATION TraceSpec
INVARIANTS FeasHonest SuccessSound BudgetKept
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
