SPECIFICATION MCSpec
INVARIANTS UnitSum Exact Reproduces AtNodes Modes
CHECK_DEADLOCK FALSE
