SPECIFICATION Spec
INVARIANTS Tokenised Reported Caret
CHECK_DEADLOCK FALSE
