SPECIFICATION RSpec
CONSTANTS
  Names = {"a", "b", "c", "d"}
  Shifts = {0, 2, 5, 9, 40}
  MaxOps = 30
  Emit = TRUE
INVARIANTS Counters Partition Range Done
CHECK_DEADLOCK FALSE
