SPECIFICATION RunSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
