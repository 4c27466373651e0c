SPECIFICATION RSpec
CONSTANTS
  Names = {"a", "b", "c", "d"}
  Weights <- GenWeights
  MaxOps = 30
  Emit = TRUE
INVARIANTS Counters Partition Done
CHECK_DEADLOCK FALSE
