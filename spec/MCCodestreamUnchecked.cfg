SPECIFICATION Spec
INVARIANTS Clean Agrees Cut
CHECK_DEADLOCK FALSE
CONSTANT Skip <- Anywhere
