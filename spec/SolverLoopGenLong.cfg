SPECIFICATION RSpec
CONSTANTS
  MaxOps = 110
  Emit = TRUE
  MKinds = {}
INVARIANTS BasicInv Done
CHECK_DEADLOCK FALSE
