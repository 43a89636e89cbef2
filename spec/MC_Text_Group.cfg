SPECIFICATION Spec
INVARIANTS Tokenised Brackets Spacing Around
CHECK_DEADLOCK FALSE
