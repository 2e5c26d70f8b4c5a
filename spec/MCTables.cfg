SPECIFICATION Spec
CONSTANTS Askers = {p, q, r}
 Keys = {k1, k2}
 MaxAsks = 5
 Locked = TRUE
INVARIANTS HandedIsRight OneInside
PROPERTIES Kept Answered
CHECK_DEADLOCK FALSE
