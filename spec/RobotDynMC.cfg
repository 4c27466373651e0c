SPECIFICATION MCSpec
CONSTANT Depth = 4
INVARIANTS Law Lost Forward Quasi
CHECK_DEADLOCK FALSE
