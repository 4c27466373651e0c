SPECIFICATION Spec
INVARIANT Done
CONSTANT N = 16
CHECK_DEADLOCK FALSE
