SPECIFICATION RSpec
CONSTANTS
  MaxOps = 60
  Emit = TRUE
  MKinds = {}
INVARIANTS BasicInv Done
CHECK_DEADLOCK FALSE
