INIT Init
NEXT Next
INVARIANTS Exact Ends Support Parsed
CHECK_DEADLOCK FALSE
