SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Approximation Tight WrenchSound WrenchTight SupportPart CoP
CHECK_DEADLOCK FALSE
