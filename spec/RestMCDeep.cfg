SPECIFICATION MCSpec
CONSTANT Sizes = {13, 31, 22, 23, 32}
INVARIANTS Penrose Best Settled Start Sane
CHECK_DEADLOCK FALSE
