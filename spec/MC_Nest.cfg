SPECIFICATION Spec
INVARIANTS Meaning Apart RollsAgree Listed Costs
CHECK_DEADLOCK FALSE
