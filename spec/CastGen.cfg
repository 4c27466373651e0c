SPECIFICATION GSpec
CONSTANTS
  MaxOps = 24
INVARIANTS Done
CHECK_DEADLOCK FALSE
