SPECIFICATION Spec
INVARIANTS Listed Contiguous Right
CHECK_DEADLOCK FALSE
CONSTANTS
  Sizes <- SizesMC
  MaxCrashes = 3
  Hasty = TRUE
