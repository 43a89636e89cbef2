INIT Init
NEXT Next
INVARIANTS AcceptsOwn RejectsOther Unseen
CHECK_DEADLOCK FALSE
