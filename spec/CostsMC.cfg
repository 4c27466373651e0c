SPECIFICATION MCSpec
INVARIANTS Gradient Hessian Sign Barrier Shrinks Chain
CHECK_DEADLOCK FALSE
