SPECIFICATION MCSpec
CONSTANTS
  Names = {"a", "b", "c"}
  Weights = {0, 3}
  MaxOps = 0
  Emit = FALSE
INVARIANTS Counters Partition
PROPERTY NoAlias
VIEW View
CHECK_DEADLOCK FALSE
