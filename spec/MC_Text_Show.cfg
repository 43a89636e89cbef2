SPECIFICATION Spec
INVARIANTS Tokenised Shown
CHECK_DEADLOCK FALSE
