SPECIFICATION Spec
CONSTANTS
  None = None
  M = {1, 2}
  D = {1, 2, 3}
  P = {p, q}
  In = {x, y}
INVARIANT Owned
PROPERTIES Fresh Independent
CHECK_DEADLOCK FALSE
