SPECIFICATION Spec
CONSTANT MaxSteps = 3
INVARIANT Right
PROPERTY Keeps
CHECK_DEADLOCK FALSE
