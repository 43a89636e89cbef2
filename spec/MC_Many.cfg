SPECIFICATION Spec
INVARIANTS AsIfAlone
PROPERTIES Frame FailClean
CHECK_DEADLOCK FALSE
