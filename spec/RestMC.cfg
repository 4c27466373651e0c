SPECIFICATION MCSpec
CONSTANT Sizes = {11, 12, 21, 22}
INVARIANTS Penrose Best Settled Start Sane
CHECK_DEADLOCK FALSE
