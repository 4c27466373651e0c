SPECIFICATION MCSpec
INVARIANTS Inside Increasing Contracts Symmetric Limit Slope
CHECK_DEADLOCK FALSE
