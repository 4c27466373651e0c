SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Approximation Tight WrenchSound WrenchTight SupportPart CoP
CHECK_DEADLOCK FALSE
