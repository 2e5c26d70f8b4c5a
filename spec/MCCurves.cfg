INIT Init
NEXT Next
INVARIANTS EndPoints Growing Undone Exact Identity
CHECK_DEADLOCK FALSE
