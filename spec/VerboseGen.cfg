SPECIFICATION GSpec
CONSTANTS
  MaxOps = 30
  Slots = {"a", "b"}
INVARIANTS Done
CHECK_DEADLOCK FALSE
