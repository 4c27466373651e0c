SPECIFICATION Spec
INVARIANTS Inside Ends Solved
PROPERTIES Descends NoStall
CHECK_DEADLOCK FALSE
