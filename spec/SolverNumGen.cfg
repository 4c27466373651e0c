SPECIFICATION Spec
CONSTANTS NSolves = 2
INVARIANTS Done
CHECK_DEADLOCK FALSE
