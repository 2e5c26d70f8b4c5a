SPECIFICATION Spec
INVARIANTS Described Referred Agreed Complete
CHECK_DEADLOCK FALSE
CONSTANTS
  Assets = {"p", "q", "r"}
  MaxVersion = 3
  Forget = FALSE
