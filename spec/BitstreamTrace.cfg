SPECIFICATION RunSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT W = 16
