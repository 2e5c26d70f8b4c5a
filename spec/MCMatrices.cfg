INIT Init
NEXT Next
INVARIANT OneSolution
CHECK_DEADLOCK FALSE
