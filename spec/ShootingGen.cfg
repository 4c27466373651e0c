SPECIFICATION RSpec
CONSTANTS
  Slots = {1, 2, 3}
  MaxOps = 25
  MaxT = 4
  Eval = FALSE
  Emit = TRUE
INVARIANTS Aligned Done
CHECK_DEADLOCK FALSE
