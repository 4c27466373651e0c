SPECIFICATION Spec
INVARIANT NeverStale
CONSTANTS
 MaxSolves = 3
 MaxEdits = 2
 Forget = TRUE
CHECK_DEADLOCK FALSE
