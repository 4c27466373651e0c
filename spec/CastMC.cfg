SPECIFICATION MCSpec
INVARIANTS Representable Twice AlikeKept
PROPERTY Alone
CHECK_DEADLOCK FALSE
