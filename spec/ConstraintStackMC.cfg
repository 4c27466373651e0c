SPECIFICATION MCSpec
CONSTANTS
  Names = {"a", "b", "c"}
  Shifts = {0}
  MaxOps = 0
  Emit = FALSE
INVARIANTS Counters Partition Range
PROPERTY NoAlias
VIEW View
CHECK_DEADLOCK FALSE
