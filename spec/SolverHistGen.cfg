CONSTANTS NSolves = 0
 NOps = 12
SPECIFICATION HSpec
INVARIANT HDone
CHECK_DEADLOCK FALSE
