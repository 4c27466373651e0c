SPECIFICATION GSpec
CONSTANTS
  None = None
  MaxOps = 24
  Slots = {1, 2, 3}
  DSlots = {1, 2, 3, 4}
INVARIANTS Owned Done
CHECK_DEADLOCK FALSE
