CONSTANTS N = 3 People = {1, 2} NamesOnly = TRUE
INIT Init
NEXT Next
INVARIANT Sound
CHECK_DEADLOCK FALSE
