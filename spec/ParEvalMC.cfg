SPECIFICATION Spec
CONSTANTS
  T = 5
  W = 3
INVARIANTS ExactlyOnce NoSharing Result
PROPERTY Ends
CHECK_DEADLOCK FALSE
