INIT Init1
NEXT Next1
INVARIANTS Accepts Rejects Tables Ends
CHECK_DEADLOCK FALSE
