SPECIFICATION TraceSpec
CONSTANTS
  Slots = {1, 2, 3}
INVARIANT Aligned
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
