SPECIFICATION MCSpec
CONSTANTS
  MaxIter = 21
INVARIANTS InRange Recent Aligned Nested Magnitude
CHECK_DEADLOCK FALSE
