SPECIFICATION MCSpec
CONSTANTS
  MaxN = 6
  MaxNs = 1
  MaxWalks = 3
INVARIANTS Timed Feet Once Lands Mass Ahead Over Even Touch Named
CHECK_DEADLOCK FALSE
