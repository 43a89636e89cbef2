INIT Init1
NEXT Next1
INVARIANTS ChartAccepts ChartRejects DiffSelf
CHECK_DEADLOCK FALSE
