SPECIFICATION TraceSpec
CONSTANT None = None
INVARIANT Owned
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
