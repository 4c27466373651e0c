SPECIFICATION Spec
CONSTANTS MaxTerms = 2
MaxSteps = 2
INVARIANTS Exact OwnPoint
CHECK_DEADLOCK FALSE
