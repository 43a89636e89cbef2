INIT Init
NEXT Next
INVARIANTS Conserved Pairs Sums Algebra Logic Untagged BigAgree BigDivision
CHECK_DEADLOCK FALSE
