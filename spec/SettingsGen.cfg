SPECIFICATION GSpec
CONSTANTS
  MaxOps = 40
  Slots = {1, 2, 3, 4}
INVARIANTS Done
CHECK_DEADLOCK FALSE
