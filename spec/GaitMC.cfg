SPECIFICATION MCSpec
CONSTANTS
  MaxN = 5
  MaxNs = 2
  MaxWalks = 2
INVARIANTS Timed Feet Once Lands Mass Ahead Over Even Touch Named
CHECK_DEADLOCK FALSE
