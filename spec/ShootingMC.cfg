SPECIFICATION MCSpec
CONSTANTS
  Slots = {1, 2}
  MaxOps = 3
  MaxT = 2
  Eval = FALSE
  Emit = FALSE
INVARIANT Aligned
PROPERTIES Isolated Local NoLoss
VIEW View
CHECK_DEADLOCK FALSE
