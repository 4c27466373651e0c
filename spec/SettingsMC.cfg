SPECIFICATION MCSpec
INVARIANTS InRange Alone
CHECK_DEADLOCK FALSE
