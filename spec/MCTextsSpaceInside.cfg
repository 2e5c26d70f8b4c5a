SPECIFICATION Spec
INVARIANTS RoundTrip Allowed
CHECK_DEADLOCK FALSE
CONSTANTS
  Strings <- StringsMC
  MaxStrings = 3
  ByPosition = FALSE
  SpaceInside = TRUE
