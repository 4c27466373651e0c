SPECIFICATION MCSpec
INVARIANTS Stay Unit1 Adds Back Rigid Compose Frame
CHECK_DEADLOCK FALSE
