SPECIFICATION Spec
INVARIANTS RollsFit
CHECK_DEADLOCK FALSE
